"""C02: layering builds initial value + sum of the layered intervals."""
from ..ctx import Fn, combine

ID = "C02"


def step(p, v):
    return Fn([], [v]) if p is None else Fn([p], [0, v])


def expected(ctx, F, triples):
    for s, e, v in triples:
        F = combine(lambda a, b: a + b, F, step(s, v))
        if e is not None:
            F = combine(lambda a, b: a - b, F, step(e, v))
    return F


def end_point(ctx, kind, name, missing):
    """-> (argument, coordinate or None for unbounded)"""
    if kind == "p":
        x = ctx.real(name, dom=True)
        return ctx.dom.pt(x), x
    if kind == "-":
        return missing, None
    if kind == "inf":
        return (-ctx.inf if name[1] == "s" else ctx.inf), None
    raise ValueError(kind)


def missing_label(ctx, how):
    if how == "nan":
        return float("nan") if ctx.dom.numeric else ctx.pd.NaT
    return None


def do_call(ctx, s, i, spec, construct=None):
    """one layer call; -> list of triples"""
    mode = spec["mode"]
    ends = spec["t"]  # e.g. ["pp", "p-", "-p"]
    triples, starts, stops, vals = [], [], [], []
    miss = missing_label(ctx, spec.get("miss", "none"))
    for j, t in enumerate(ends):
        a, sa = end_point(ctx, "inf" if t[0] == "i" else t[0], "%ss%d" % ("abc"[i], j), miss)
        b, sb = end_point(ctx, "inf" if t[1] == "i" else t[1], "%se%d" % ("abc"[i], j), miss)
        starts.append(a)
        stops.append(b)
        if spec.get("v", "sym") == "sym":
            v = ctx.real("%sv%d" % ("abc"[i], j), np=spec.get("np", False))
            if spec.get("vint"):
                v = ctx.as_int(v)
        elif spec["v"] == "one":
            v = 1
        else:
            v = spec["v"][j]
        vals.append(v)
        triples.append((sa, sb, v))
    kw = {}
    if mode == "scalar":
        a, b, v = starts[0], stops[0], vals[0]
        if spec.get("v") == "one":
            v = None
        args = (a, b, v)
    else:
        pd, np = ctx.pd, ctx.np
        cut = spec.get("short")  # drop trailing missing entries of one vector
        if cut == "s":
            starts = [x for x, t in zip(starts, ends) if t[0] != "-"]
        if cut == "e":
            stops = [x for x, t in zip(stops, ends) if t[1] != "-"]
        if spec.get("omit") == "s":
            starts = None
        if spec.get("omit") == "e":
            stops = None
        v = None if spec.get("v") == "one" else vals
        if spec.get("bcast"):  # one scalar value for all intervals
            v = vals[0]
            triples = [(a, b, vals[0]) for a, b, _ in triples]

        def wrap(x, idx):
            if x is None or mode == "list":
                return x
            if mode == "tuple":
                return tuple(x)
            if mode == "array":
                return pd.Series(x).values
            if mode == "index":
                return pd.Index(x)
            if mode == "series":
                return pd.Series(x, index=idx[:len(x)])
            return x
        if mode == "frame":
            cols = {}
            if starts is not None:
                cols["S"] = starts
            if stops is not None:
                cols["E"] = stops
            if v is not None and not spec.get("bcast"):
                cols["V"] = v
            df = pd.DataFrame(cols)
            if spec.get("fidx"):
                df.index = spec["fidx"]
            kw["frame"] = df
            args = ("S" if "S" in cols else None, "E" if "E" in cols else None,
                    "V" if "V" in cols else (v if spec.get("bcast") else None))
        else:
            args = (wrap(starts, [3, 1, 7]), wrap(stops, [1, 1, 0]),
                    wrap(v, [9, 9, 2]) if isinstance(v, list) else v)
    if construct is not None:
        st = ctx.sc.Stairs(start=args[0], end=args[1], value=args[2], initial_value=construct["init"],
                           closed=construct["closed"], **kw)
        return st, triples
    r = s.layer(args[0], args[1], args[2], **kw)
    ctx.prove(r is s, "layer returns the receiver")
    return s, triples


def history(ctx):
    """receiver, then a sequence of layer calls"""
    s, F = ctx.stairs("f", ctx.get("n", 0), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"),
                      vtype=ctx.get("vtype", "f"))
    for i, spec in enumerate(ctx.get("calls")):
        if ctx.get("read"):
            s.step_values
            if ctx.get("read") == "both":
                s.step_changes
        s, tr = do_call(ctx, s, i, spec)
        F = expected(ctx, F, tr)
        if ctx.get("each"):
            ctx.prove_same_fn(ctx.fn(s), F, "after call %d" % (i + 1))
    ctx.prove_same_fn(ctx.fn(s, key="s"), F, "after the last call")
    ctx.prove(s.closed == ctx.get("closed", "left"), "closed side kept")


def constructor(ctx):
    init = ctx.val("i0", False)
    s, tr = do_call(ctx, None, 0, ctx.get("calls")[0], dict(init=init, closed=ctx.get("closed", "left")))
    ctx.prove_same_fn(ctx.fn(s, key="s"), expected(ctx, Fn([], [init]), tr), "constructor")


HARNESSES = {"history": history, "constructor": constructor}
BOUNDS = {
    "quick": "receivers with 0..2 step points; histories of 1..3 scalar calls, vector calls of 1..3 triples, mixed "
             "histories of 2 calls; every argument container; values symbolic",
    "thorough": "receivers with 0..3 step points; histories of up to 4 scalar calls, vector calls of 1..4 triples",
}
ONE = ["pp", "p-", "-p", "--"]


def configs(tier):
    big = tier == "thorough"
    S = lambda *t, **k: dict(mode="scalar", t=list(t), **k)  # noqa: E731
    L = lambda *t, **k: dict(dict(mode="list", t=list(t)), **k)  # noqa: E731
    recv = [(0, "V"), (1, "V"), (1, "VD"), (1, "D"), (2, "V"), (2, "VD"), (2, "D"), (2, "DV")]
    if big:
        recv += [(3, "V"), (3, "D"), (3, "VD")]
    for n, form in recv:
        nan = form[0] == "V"
        base = dict(n=n, form=form)
        for t in ONE:
            for miss in ("none", "nan") if "-" in t else ("none",):
                for nn in (True, False) if nan else (False,):
                    b = dict(base, nan=nn)
                    yield "history", dict(b, calls=[S(t, miss=miss)], closed="right" if n == 1 else "left")
                    yield "history", dict(b, calls=[L(t, miss=miss)])
        yield "history", dict(base, calls=[S("pp", v="one")])
        base["nan"] = nan and n < 1
        if n < 2 or big:
            yield "history", dict(base, calls=[S("pi"), S("ip")])
            yield "history", dict(base, calls=[L("pp", "pp")])
            yield "history", dict(base, calls=[L("p-", "pp"), S("p-")])
            yield "history", dict(base, calls=[L("-p", "p-"), S("pp")])
            yield "history", dict(base, calls=[S("pp"), L("p-", "-p")], each=True)
            yield "history", dict(base, calls=[S("pp"), S("p-")], each=True)
            yield "history", dict(base, calls=[S("pp"), S("-p")], nan=nan)
            yield "history", dict(base, calls=[L("-p"), L("pp")], nan=nan)
        else:
            yield "history", dict(base, calls=[L("p-", "-p")])
            yield "history", dict(base, calls=[S("-p"), S("p-")])
            yield "history", dict(base, calls=[L("-p"), L("p-")])
        for rd in ("v", "both"):
            for nn in (True, False) if nan else (False,):
                b = dict(base, nan=nn, read=rd)
                if n < 2 or big:
                    yield "history", dict(b, calls=[S("pp"), S("-p")])
                    yield "history", dict(b, calls=[L("pp"), L("-p")])
                else:
                    yield "history", dict(b, calls=[S("-p"), S("p-")])
                    yield "history", dict(b, calls=[L("-p"), L("p-")])
    # longer histories on fresh receivers
    for n in (0, 1):
        nan = n == 0
        yield "history", dict(n=n, calls=[S("pp"), S("pp")], nan=nan)
        yield "history", dict(n=n, calls=[S("p-"), S("p-"), S("p-")], nan=nan)
        yield "history", dict(n=n, calls=[S("p-"), L("-p"), S("-p")], nan=nan)
        yield "history", dict(n=n, calls=[L("pp", "p-", "-p")] if not n else [L("p-", "p-", "-p")], nan=nan)
        yield "history", dict(n=n, calls=[L("p-", "p-", "p-")], nan=nan)
    yield "history", dict(n=0, calls=[S("pp"), S("p-"), S("p-")], nan=False)
    if big:
        yield "history", dict(n=0, calls=[S("pp"), S("pp"), S("p-")], nan=False)
        yield "history", dict(n=0, calls=[L("pp", "pp", "p-")], nan=False)
        yield "history", dict(n=0, calls=[L("pp", "pp"), L("p-", "p-")], nan=False)
        yield "history", dict(n=1, calls=[L("pp", "p-", "p-")], nan=False)
        yield "history", dict(n=2, calls=[S("pp"), S("pp")], nan=False)
        yield "history", dict(n=2, calls=[L("pp", "p-"), S("p-")], nan=False)
        yield "history", dict(n=1, calls=[L("p-", "p-", "p-", "-p")], nan=False)
    # containers
    for mode in ("list", "tuple", "array", "index", "series", "frame"):
        for miss in ("none", "nan"):
            yield "history", dict(n=1, calls=[L("p-", "-p", mode=mode, miss=miss)])
            yield "history", dict(n=0, calls=[L("p-", "-p", "pp", mode=mode, miss=miss)], nan=False)
        if mode != "frame":  # a frame has columns of one length
            yield "history", dict(n=1, calls=[L("pp", "p-", mode=mode, short="e")], nan=False)
            yield "history", dict(n=1, calls=[L("pp", "-p", mode=mode, short="s")], nan=False)
        yield "history", dict(n=1, calls=[L("p-", "p-", mode=mode, omit="e")])
        yield "history", dict(n=1, calls=[L("-p", "-p", mode=mode, omit="s")])
        yield "history", dict(n=1, calls=[L("pp", "p-", mode=mode, v="one")], nan=False)
        yield "history", dict(n=0, calls=[L("pp", "p-", mode=mode, bcast=True)])
        yield "history", dict(n=0, calls=[L("pp", "p-", mode=mode, v=[2, -2])])
        yield "constructor", dict(calls=[L("pp", "p-", mode=mode)])
        yield "constructor", dict(calls=[L("pp", "p-", mode=mode)], closed="right")
    yield "history", dict(n=1, calls=[L("pp", "p-", mode="frame", fidx=[5, 5])], nan=False)
    for t in ONE + ["pi", "ip"]:
        yield "constructor", dict(calls=[S(t)])
        if t != "--":  # Stairs() without any argument layers nothing
            yield "constructor", dict(calls=[S(t, v="one")])
    yield "history", dict(n=1, vtype="i", nan=False, calls=[S("p-", vint=True), L("pp", vint=True)])
    # domains
    for dom in ("int", "ts", "tz", "dst", "td"):
        for miss in ("none", "nan"):
            yield "history", dict(n=1, dom=dom, calls=[S("-p"), S("p-", miss=miss)])
            yield "history", dict(n=0, dom=dom, calls=[L("pp", "p-", miss=miss), S("-p", miss=miss)], nan=False)
            yield "history", dict(n=1, dom=dom, calls=[L("p-", "-p", miss=miss)])
            for mode in {"int": (), "tz": ("index", "series", "frame"), "dst": ("index", "series", "frame")}.get(
                    dom, ("array", "index", "series", "frame")):
                yield "history", dict(n=0, dom=dom, calls=[L("pp", "-p", mode=mode, miss=miss)])
        yield "constructor", dict(dom=dom, calls=[S("pp")])
