"""C17: the same program in every domain type gives results which are images of one another."""
from ..ctx import Dom
from .common import BINARY, BIN, UNARY, apply_op

ID = "C17"


class Flav(Dom):
    """a domain whose scalars come in a given flavour"""

    def __init__(self, ctx, kind, flavour="pd"):
        super().__init__(ctx, kind)
        self.flavour = flavour

    def _flav(self, p):
        fl, ctx = self.flavour, self.ctx
        if fl == "pd":
            return p
        if self.kind == "int":
            return ctx.as_int(p, np=fl == "np")
        if self.kind == "float":
            return ctx.npfloat(p) if fl == "np" else p
        inst = hasattr(p, "to_pydatetime")
        if fl == "py":
            return p.to_pydatetime() if inst else p.to_pytimedelta()
        if fl == "np":
            return p.to_datetime64() if inst else p.to_timedelta64()
        raise ValueError(fl)

    def pt(self, x):
        return self._flav(super().pt(x))

    def dur(self, x):
        return self._flav(super().dur(x))

    def unpt(self, label):
        if not self.numeric and not self.ctx.symbolic:
            label = self.ctx.pd.Timedelta(label) if self.kind == "td" else self.ctx.pd.Timestamp(label)
            if self.tzname and label.tzinfo is None:
                label = label.tz_localize("UTC")  # numpy's datetime64 of an aware instant
        elif not self.numeric and self.tzname and getattr(label, "tz", 0) is None:
            label = self.ctx.pd.Timestamp(label).tz_localize("UTC")
        return super().unpt(label)


class Rec:
    """what one run of a program shows, in the numeric domain"""

    def __init__(self, ctx, D, name):
        self.ctx, self.D, self.name, self.items = ctx, D, name, []

    def _add(self, kind, label, v):
        self.items.append((kind, label, v))

    def fn(self, label, s):
        D, ctx = self.D, self.ctx
        for view in ("v", "c"):
            ser = s.step_values if view == "v" else s.step_changes
            self.pts("%s: step points (%s)" % (label, view), ser.index)
            self.nums("%s: %s" % (label, view), list(ser.values))
        self.num(label + ": initial value", s.initial_value)
        self.flag(label + ": closed", s.closed)
        self.flag(label + ": number of steps", s.number_of_steps)
        if D.kind != "float" and len(s.step_values.index):
            self.kept(label, s.step_values.index)
        return s

    def kept(self, label, index):
        """the index is of the domain's own type, in the same timezone"""
        D, pd = self.D, self.ctx.pd
        if D.instant:
            self.ctx.prove(isinstance(index, pd.DatetimeIndex), label + ": labels are instants")
            self.ctx.prove(str(index.tz) == str(D.origin.tz), label + ": timezone")
        elif D.kind == "td":
            self.ctx.prove(isinstance(index, pd.TimedeltaIndex), label + ": labels are durations")

    def numfn(self, label, s):
        """a step function over values (a distribution)"""
        self.nums(label + ": points", list(s.step_values.index))
        self.nums(label, list(s.step_values.values))
        self.num(label + ": initial value", s.initial_value)

    def num(self, label, v):
        self._add("num", label, self.ctx.num(v))

    def nums(self, label, vs):
        vs = list(vs)
        self.flag(label + ": length", len(vs))
        for v in vs:
            self.num(label, v)

    def durs(self, label, vs):
        vs = list(vs)
        self.flag(label + ": length", len(vs))
        for v in vs:
            self.dur(label, v)

    def dur(self, label, v):
        missing = v is None or v is getattr(self.ctx.pd, "NaT", None)
        if not missing and not self.D.numeric:
            try:
                missing = bool(v != v)
            except TypeError:
                missing = False
        self._add("num", label, self.ctx.nanv() if missing else self.D.undur(v))

    def pts(self, label, vs):
        vs = list(vs)
        self.flag(label + ": number", len(vs))
        for v in vs:
            self._add("num", label, self.D.unpt(v))

    def ends(self, label, vs):
        """interval ends, possibly infinite"""
        vs = list(vs)
        self.flag(label + ": number", len(vs))
        inf = self.ctx.inf
        for v in vs:
            if v is inf or v is -inf:
                self.flag(label, "inf" if v is inf else "-inf")
            else:
                self._add("num", label, self.D.unpt(v))

    def flag(self, label, v):
        self._add("flag", label, v)


# ------------------------------------------------------------------------- programs
class Env:
    """operands and arguments of a program"""

    def __init__(self, ctx, dom):
        self.ctx, self.dom = ctx, dom
        c = ctx.get("closed", "left")
        self.f, self.F = ctx.stairs("f", ctx.get("n", 2), ctx.get("form", "V"), ctx.get("nan", True), c, dom=self.df())
        if ctx.get("ng") is not None:
            self.g, self.G = ctx.stairs("g", ctx.get("ng"), ctx.get("fg", "V"), ctx.get("nan", True), c, dom=self.dg())

    def df(self):
        return self.dom[0]

    def dg(self):
        return self.dom[1]

    def x(self, v):
        ctx = self.ctx
        return ctx.lit(v) if not isinstance(v, str) else ctx.real("x" + v, dom=True)

    def xs(self):
        return [self.x(v) for v in self.ctx.get("xs", [0, "x", 2])]

    def window(self):
        """(left, right) of the configuration"""
        ctx, D = self.ctx, self.dom[2]
        a, b = (None if v is None else self.x(v) for v in ctx.get("where", [0, 3]))
        if a is not None and b is not None:
            ctx.assume(a < b)
        return (None if a is None else D.pt(a), None if b is None else D.pt(b))


def p_op(ctx, e, R):
    g = (e.g, e.G) if ctx.get("ng") is not None else ()
    h, _ = apply_op(ctx, ctx.get("op"), e.f, e.F, *g)
    R.fn(ctx.get("op"), h)


def p_eval(ctx, e, R):
    D, f = e.dom[2], e.f
    xs = e.xs()
    lab = D.pts(xs)
    shapes = {"list": list, "tuple": tuple, "array": ctx.np.array, "series": ctx.pd.Series,
              "index": lambda ls: ctx.pd.Index(ls)}
    box = shapes[ctx.get("shape", "list")]
    for x in lab:
        R.num("f(x)", f(x))
        R.num("sample", f.sample(x))
        for side in ("left", "right"):
            R.num("limit", f.limit(x, side))
    R.nums("sample list", f.sample(box(lab)))
    R.nums("limit list", f.limit(box(lab), side="left"))
    s = f.sample(box(lab), include_index=True)
    R.pts("sample index", s.index)
    R.nums("sample indexed", s.values)
    s = f.limit(lab[0], side="right", include_index=True)
    R.pts("limit index", s.index)
    R.nums("limit indexed", s.values)
    if D.tzname and ctx.get("shape") != "array":
        R.kept("sample index", f.sample(box(lab), include_index=True).index)


def p_build(ctx, e, R):
    """building from intervals: scalars, vectors, Series, a frame"""
    sc, pd, D, how = ctx.sc, ctx.pd, e.dom[2], ctx.get("how")
    iv = ctx.get("ivs")  # (start, end, value)
    co = lambda v: None if v is None else D.pt(e.x(v))
    starts, ends = [co(a) for a, b in iv], [co(b) for a, b in iv]
    vals = [ctx.val("v%d" % i, False) for i in range(len(iv))]
    nat = {"nat": getattr(pd, "NaT", None), "none": None, "nan": ctx.nanv()}[ctx.get("missing", "none")]
    if D.numeric and ctx.get("missing") == "nat":
        nat = ctx.nanv()
    if ctx.get("missing") == "nan":
        nat = float("nan")
    starts = [nat if a is None else a for a in starts]
    ends = [nat if a is None else a for a in ends]
    kw = dict(closed=ctx.get("closed", "left"), initial_value=ctx.get("init", 0))
    if how == "scalar":
        s = sc.Stairs(**kw)
        for a, b, v in zip(starts, ends, vals):
            s.layer(a, b, v)
    elif how == "ctor":
        s = sc.Stairs(start=starts[0], end=ends[0], value=vals[0], **kw)
    elif how == "vector":
        s = sc.Stairs(start=starts, end=ends, value=vals, **kw)
    elif how == "layer":
        s = sc.Stairs(**kw).layer(starts, ends, vals)
    elif how == "array":
        s = sc.Stairs(**kw).layer(ctx.np.array(starts), ctx.np.array(ends), ctx.np.array(vals))
    elif how == "series":
        s = sc.Stairs(**kw).layer(pd.Series(starts), pd.Series(ends), pd.Series(vals))
    elif how == "index":
        s = sc.Stairs(**kw).layer(pd.Index(starts), pd.Index(ends))
    elif how == "starts":
        s = sc.Stairs(start=starts, **kw)
    elif how == "ends":
        s = sc.Stairs(end=ends, value=vals, **kw)
    elif how == "frame":
        s = sc.Stairs(frame=pd.DataFrame({"a": pd.Series(starts), "b": pd.Series(ends), "v": pd.Series(vals)}),
                      start="a", end="b", value="v", **kw)
    elif how == "values":
        s = sc.Stairs.from_values(initial_value=1, values=pd.Series(vals, index=starts), closed=kw["closed"])
    else:
        raise ValueError(how)
    R.fn("built " + how, s)


def p_views(ctx, e, R):
    D, f, inf = e.dom[0], e.f, ctx.inf
    df = f.to_frame()
    R.ends("frame starts", list(df["start"]))
    R.ends("frame ends", list(df["end"]))
    R.nums("frame values", list(df["value"]))
    R.pts("step points", list(f.step_points))
    R.flag("bool", bool(f))
    h = f.copy()
    R.flag("identical to a copy", bool(h.identical(f)))
    R.fn("f", f)


def p_string(ctx, e, R):
    """bounds given as strings (only the fixed ones of the configuration)"""
    D, f = e.dom[2], e.f
    a, b = (None if v is None else str(D.pt(ctx.lit(v))) if D.instant else D.pt(ctx.lit(v))
            for v in ctx.get("where"))
    op = ctx.get("op")
    if op == "clip":
        h = f.clip(a, b) if ctx.get("pos") else f.clip(lower=a, upper=b)
    elif op == "mask":
        h = f.mask((a, b))
    else:
        h = f.where((a, b))
    R.fn(op, h)


def p_stat(ctx, e, R):
    f, op, w = e.f, ctx.get("op"), e.window()
    closed = ctx.get("wclosed")
    if op in ("agg", "aggs"):
        names = ctx.get("stats")
        kw = dict(closed=closed) if closed else {}
        if op == "aggs":
            r = f.agg(names, w, **kw)
            R.flag("statistics", [str(x) for x in r.index])
            got = list(r.values)
        else:
            got = [f.agg(x, where=w, **kw) for x in names]
        for x, v in zip(names, got):
            (R.dur if x == "integral" else R.num)(x, v)
        return
    kw = dict(where=w)
    if closed:
        kw["closed"] = closed
    if op == "extremes":
        R.num("max", f.agg("max", w))
        R.num("min", f.agg("min", w))
        R.nums("values_in_range", f.values_in_range(**kw))
    elif op == "describe":
        d = f.describe(where=w)
        for k in list(d.index):
            R.num("describe " + str(k), d[k])
    else:
        if ctx.get("where") != "whole":
            f = f.clip(*w)
        if op == "whole":
            R.dur("integral", f.integral())
            R.num("mean", f.mean())
            for m in ("median", "mode", "max", "min", "var", "std"):
                R.num(m, getattr(f, m)())
        elif op == "value_sums":
            for kw in (dict(), dict(dropna=False), dict(group=False)):
                s = f.value_sums(**kw)
                R.nums("values", list(s.index))
                R.durs("durations", list(s))
        elif op == "hist":
            for st in ("sum", "frequency", "density", "probability"):
                h = f.hist(bins=ctx.get("bins", "unit"), stat=st)
                R.nums("bins left", [i.left for i in h.index])
                R.nums("bins right", [i.right for i in h.index])
                # the sums are durations; the others are numbers, frequencies and densities per unit of the domain
                if st == "sum":
                    R.durs("hist sum", list(h))
                elif st == "probability":
                    R.nums("hist probability", list(h))
                else:
                    R.flag("hist " + st, len(h))
        elif op == "dist":
            R.numfn("ecdf", f.ecdf)
            R.numfn("percentile", f.percentile)
            R.numfn("fractile", f.fractile)
            R.nums("quantiles", f.quantiles(4))
        else:
            raise ValueError(op)


def p_cov(ctx, e, R):
    op, w = ctx.get("op"), e.window()
    kw = {}
    if ctx.get("lag") is not None:
        kw["lag"] = e.dom[2].dur(e.x(ctx.get("lag")))
    if ctx.get("clipped"):
        kw["clip"] = ctx.get("clipped")
    R.num(op, getattr(e.f, op)(e.g, where=w, **kw))


def p_slice(ctx, e, R):
    f, D, pd = e.f, e.dom[2], ctx.pd
    cuts = [e.x(c) for c in ctx.get("cuts")]
    for a, b in zip(cuts, cuts[1:]):
        ctx.assume(a < b)
    how = ctx.get("how", "breaks")
    if how == "ii":
        lab = Dom(ctx, D.kind).pts(cuts)
        arg, kw = pd.IntervalIndex.from_breaks(pd.Index(lab), closed="left"), {}
    else:
        arg, kw = (list if how == "breaks" else ctx.np.array if how == "array" else pd.Index)(D.pts(cuts)), {}
        if ctx.get("ic"):
            kw["closed"] = ctx.get("ic")
    s = f.slice(arg, **kw)
    op = ctx.get("op")
    if op == "resample":
        h = s.resample(ctx.get("stat", "mean"))
        R.fn("resample", h)
        return
    if op == "hist":
        r = s.hist(bins=[0, 2, 4], stat="sum")
        for i in range(len(r.index)):
            R.durs("slice hist", list(r.iloc[i]))
        ix = r.index
    elif op == "apply":
        import functools

        r = s.apply(lambda p: p.agg("mean", (None, None)) if False else p.mean())
        R.nums("slice apply", list(r))
        ix = r.index
    elif op == "aggs":
        r = s.agg(["mean", "max"])
        R.flag("columns", [str(c) for c in r.columns])
        R.nums("slice mean", list(r["mean"]))
        R.nums("slice max", list(r["max"]))
        ix = r.index
    else:
        r = getattr(s, op)()
        (R.durs if op == "integral" else R.nums)("slice " + op, list(r))
        ix = r.index
    R.pts("slices left", [i.left for i in ix])
    R.pts("slices right", [i.right for i in ix])
    R.flag("slices closed", ix.closed)


def p_rolling(ctx, e, R):
    D = e.dom[2]
    l, r = (e.x(v) for v in ctx.get("win"))
    kw = {}
    if ctx.get("where"):
        kw["where"] = e.window()
    s = e.f.rolling_mean((D.dur(l), D.dur(r)), **kw)
    R.pts("rolling points", s.index)
    R.nums("rolling means", list(s.values))
    if D.tzname and len(s.index):
        R.kept("rolling points", s.index)


def p_collect(ctx, e, R):
    sc, D, op = ctx.sc, e.dom[2], ctx.get("op")
    ms = [e.f, e.g]
    if op in ("sum", "mean", "median", "min", "max", "logical_or", "logical_and"):
        R.fn(op, getattr(sc, op)(ms))
    elif op in ("sample", "limit"):
        xs = D.pts(e.xs())
        for X in (xs, xs[0]):
            df = sc.sample(ms, X) if op == "sample" else sc.limit(ms, X, side="left")
            R.pts(op + " columns", list(df.columns))
            for i in range(2):
                R.nums(op + " row", list(df.iloc[i].values))
    elif op in ("cov", "corr"):
        m = getattr(sc, op)(ms, where=e.window())
        for i in range(2):
            R.nums(op, list(m.iloc[i].values))
    else:
        h = sc.StairsArray(ms)
        r = {"array+": lambda: h + e.g, "array-": lambda: h - h, "array<": lambda: h < e.f}[op]()
        for i, s in enumerate(r):
            R.fn("element", s)


PROGRAMS = {"op": p_op, "eval": p_eval, "build": p_build, "views": p_views, "string": p_string, "stat": p_stat,
            "cov": p_cov, "slice": p_slice, "rolling": p_rolling, "collect": p_collect}


def run(ctx, prog, doms):
    keep = ctx.dom
    D = doms[0] if not doms[0].numeric else [d for d in doms][0]
    ctx.dom = doms[2]
    try:
        e = Env(ctx, doms)
        R = Rec(ctx, D, prog)
        _, exc = ctx.call(lambda: PROGRAMS[prog](ctx, e, R))
        return R, exc
    finally:
        ctx.dom = keep


def images(ctx, prog):
    base = [Flav(ctx, "float")] * 3
    kinds = ctx.get("to")
    if isinstance(kinds, str):
        kinds = [kinds] * 3
    fl = ctx.get("fl", "pd")
    target = [Flav(ctx, kinds[0]), Flav(ctx, kinds[1]), Flav(ctx, kinds[2], fl)]
    A, ea = run(ctx, prog, base)
    B, eb = run(ctx, prog, target)
    ctx.observe("exceptions", [type(ea).__name__, type(eb).__name__])
    if ea is not None or eb is not None:
        ctx.prove(type(ea) is type(eb), "raises in one domain only (%s / %s)" % (ea and repr(ea)[:120], eb and repr(eb)[:120]))
        return
    ctx.prove([(k, l) for k, l, _ in A.items] == [(k, l) for k, l, _ in B.items], "the same shape of results")
    for (k, l, a), (_, _, b) in zip(A.items, B.items):
        if k == "flag":
            ctx.prove(a == b, "%s: %s / %s" % (l, a, b))
        else:
            ctx.prove_same(a, b, l)


def harness(prog):
    def h(ctx):
        images(ctx, prog)
    h.__name__ = prog
    return h


HARNESSES = {p: harness(p) for p in PROGRAMS}
BOUNDS = {
    "quick": "the same program run with float labels and in one of: int labels, int labels of one operand or of the arguments "
             "only, naive / UTC / fixed-offset / Australia-Sydney instants (around a change of offset), durations; arguments "
             "as pandas, python or numpy scalars. Programs: every operation, evaluation, construction, view, statistic, "
             "covariance, slicing, rolling mean and collection operation, on functions with 0..2 step points (symbolic "
             "points and values where both runs stay linear, fixed ones otherwise)",
    "thorough": "more combinations of operation, domain, scalar flavour and number of step points",
}

TO = ["int", "ts", "tz", "fix", "dst", "td"]
MIX = [["int", "float", "float"], ["float", "int", "float"], ["float", "float", "int"], ["int", "int", "float"],
       ["int", "float", "int"]]


def flavours(to):
    if to in ("tz", "fix", "dst"):
        return ["pd", "py"]
    return ["pd", "py", "np"]


def configs(tier):
    big = tier == "thorough"
    k = 0

    def each(c, n=2):
        """n of the domain/flavour pairs, rotating"""
        nonlocal k
        pairs = [(t, fl) for t in TO for fl in flavours(t)] + [(m, fl) for m in MIX for fl in ("pd", "np")]
        if big:
            n *= 4
        for i in range(n):
            k += 1
            t, fl = pairs[(k * 7) % len(pairs)]
            yield dict(c, to=t, fl=fl, closed="right" if k % 4 == 0 else "left")

    P1 = dict(fpts=[1])
    P2 = dict(fpts=[0, 2])
    for op in UNARY:
        for n, form in ((0, "V"), (1, "V"), (1, "D"), (2, "V"), (2, "VD")):
            c = dict(op=op, n=n, form=form)
            for d in each(c, 3 if n < 2 else 2):
                if n == 2 and k % 2:
                    d.update(P2)
                yield "op", d
    for op in BINARY:
        for n, ng in ((1, 0), (0, 1), (1, 1), (2, 1)):
            c = dict(op=op, n=n, ng=ng, form="DV" if k % 3 else "V", fg="D" if k % 2 else "V")
            if n + ng > 1:
                c.update(fpts=[0] if n == 1 else [0, 2], gpts=[1])
            for d in each(c, 3):
                yield "op", d
        yield "op", dict(op=op, n=1, ng=1, to=TO[k % 6])
    for n in (0, 1, 2):
        for shape in ("list", "tuple", "array", "series", "index"):
            for t in TO + MIX:
                for fl in flavours(t if isinstance(t, str) else "int"):
                    k += 1
                    if n == 0 and k % 3 or n == 2 and k % 2:
                        if not big:
                            continue
                    yield "eval", dict(n=n, shape=shape, to=t, fl=fl, xs=[["x", 1], [0, 1, 2], [2, "x", 0]][k % 3],
                                       closed="right" if k % 4 == 0 else "left", **(P2 if n == 2 else {}))
    IVS = [[(0, 2)], [(0, "b")], [(0, None)], [(None, 1)], [(0, 2), (1, 3)], [(0, 1), (1, 2)], [(0, "b"), (1, None)],
           [(2, 3), (0, 1)], [(None, None)], [(0, 2), (None, 1)], [(1, 1)]]
    for ivs in IVS:
        for how in ("scalar", "ctor", "vector", "layer", "array", "series", "index", "starts", "ends", "frame", "values"):
            if how in ("array", "index", "starts", "values") and any(a is None for a, b in ivs):
                continue
            if how in ("array", "index") and any(b is None for a, b in ivs):
                continue
            if how == "ends" and any(b is None for a, b in ivs):
                continue
            if how == "values" and ivs[0][0] > ivs[-1][0]:
                continue
            for d in each(dict(n=0, how=how, ivs=ivs, missing=["none", "nat", "nan"][k % 3]), 4):
                yield "build", d
    for n in (0, 1, 2):
        for form in ("V", "D", "VN"):
            for t in TO:
                k += 1
                yield "views", dict(n=n, form=form, to=t, closed="right" if k % 4 == 0 else "left")
    for op in ("clip", "mask", "where"):
        for where in ([0, 2], [None, 1], [1, None], [1, 3]):
            for t in ("ts", "tz", "fix"):
                for n in (0, 1, 2):
                    k += 1
                    yield "string", dict(op=op, n=n, to=t, where=where, pos=k % 2 == 0,
                                         closed="right" if k % 4 == 0 else "left", **({1: P1, 2: P2}.get(n, {}) if n else {}))
    # -- statistics: fixed points with symbolic values, or fixed values with symbolic points
    V = {0: [2], 1: [3, 1], 2: [1, None, 2], 3: [0, 2, 1, 2]}
    P = {0: [], 1: [1], 2: [0, 2], 3: [0, 1, 3]}
    for n in (0, 1, 2, 3):
        for wh in ([0, 3], [-1, 2.5], [0, "b"], [1, 2]):
            for op in ("agg", "aggs", "extremes", "describe", "whole", "value_sums", "hist", "dist"):
                if isinstance(wh[1], str) and op in ("dist", "describe", "whole", "hist"):
                    continue
                fixedv = dict(fvals=V[n]) if n else dict(fvals=V[0])
                c = dict(n=n, op=op, where=wh, stats=["integral", "mean"] if k % 2 else
                         ["mean", "integral", "max", "min", "median", "mode"], fpts=P[n], **fixedv)
                if op in ("agg", "aggs") and isinstance(wh[1], str):
                    c["stats"] = ["integral", "mean", "max", "min"]
                if op == "hist" and k % 2:
                    c["bins"] = [0, 1, 3]
                for d in each(c, 3):
                    if any(isinstance(w, float) for w in wh) and d["to"] == "int":
                        continue
                    yield "stat", d
                if op in ("agg", "extremes", "value_sums") and n < 3 and not isinstance(wh[1], str):
                    c = dict(c, stats=["integral", "mean", "max", "min"])
                    c.pop("fvals")
                    if op == "agg" or n < 2:
                        for d in each(c, 2):
                            if any(isinstance(w, float) for w in wh) and d["to"] == "int":
                                continue
                            yield "stat", d
    for op in ("cov", "corr"):
        for n, ng in ((0, 1), (1, 1), (2, 1), (1, 2)):
            for lag in (None, 0, 1, -1, "l"):
                if lag == "l" and op == "corr":
                    continue
                c = dict(op=op, n=n, ng=ng, where=[0, 4], lag=lag, clipped=["pre", "post"][k % 2], fpts=P[n], gpts=[2, 3][:ng],
                         fvals=V[n], gvals=[[1], [0, 2], [4, 1, 3]][ng])
                for d in each(c, 3):
                    yield "cov", d
    for op in ("mean", "integral", "max", "min", "median", "mode", "hist", "apply", "aggs", "resample"):
        for n in (0, 1, 2, 3):
            for cuts in ([0, 1, 3], [-1, 2], [0, "b"]):
                for how in ("breaks", "array", "ii", "index"):
                    k += 1
                    if k % 2 and not big:
                        continue
                    if cuts[-1] == "b" and op in ("median", "mode", "hist"):
                        continue
                    ic = None if how == "ii" or k % 3 else "right"
                    for d in each(dict(op=op, n=n, cuts=cuts, how=how, fpts=P[n], fvals=V[n], ic=ic), 1):
                        yield "slice", d
    for n in (1, 2, 3):
        for win in ([-1, 1], [0, 2], [-2, 0], ["l", 1]):
            for wh in (None, [-3, 6]):
                vals = {1: [0, 2], 2: [0, 3, 1], 3: [0, 2, 1, 2]}[n]
                for d in each(dict(n=n, win=win, where=wh, fpts=P[n], fvals=vals), 4):
                    yield "rolling", d
    for op in ("sum", "mean", "median", "min", "max", "logical_or", "logical_and", "sample", "limit", "cov", "corr", "array+",
               "array-", "array<"):
        for n, ng in ((1, 0), (1, 1), (2, 1)):
            c = dict(op=op, n=n, ng=ng, fpts=P[n], gpts=[1, 2][:ng], xs=[0, 1])
            if op in ("cov", "corr"):
                c.update(where=[0, 3], fvals=V[n], gvals=[[1], [0, 2]][ng])
            for d in each(c, 4):
                yield "collect", d
