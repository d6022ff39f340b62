"""C14: cached statistics never go stale across layer mutations."""
ID = "C14"


def _pts(ctx, *xs):
    return [ctx.dom.pt(ctx.lit(x)) for x in xs]


def num_steps(ctx, s):
    sv = s.step_values
    return list(sv.index) + [s.initial_value] + list(sv.values)


def ser(s):
    return list(s.index) + list(s.values)


def intervals(s):
    out = []
    for i in list(s.index):
        out += [i.left, i.right]
    return out + list(s.values)


QUERIES = {
    "integral": lambda ctx, f: [f.integral()],
    "mean": lambda ctx, f: [f.mean()],
    "median": lambda ctx, f: [f.median()],
    "mode": lambda ctx, f: [f.mode()],
    "var": lambda ctx, f: [f.var()],
    "std": lambda ctx, f: [f.std()],
    "min": lambda ctx, f: [f.min()],
    "max": lambda ctx, f: [f.max()],
    "value_sums": lambda ctx, f: ser(f.value_sums()),
    "value_sums_raw": lambda ctx, f: ser(f.value_sums(dropna=False)),
    "ecdf": lambda ctx, f: num_steps(ctx, f.ecdf),
    "ecdf_at": lambda ctx, f: list(f.ecdf([-1, 0, 2.5])),
    "percentile": lambda ctx, f: num_steps(ctx, f.percentile),
    "percentile_at": lambda ctx, f: list(f.percentile([0, 30, 50, 100])),
    "fractile": lambda ctx, f: num_steps(ctx, f.fractile),
    "fractile_at": lambda ctx, f: [f.fractile(0.25)],
    "quantiles": lambda ctx, f: list(f.quantiles(4)),
    "hist": lambda ctx, f: intervals(f.hist(bins=[-20, -1, 0, 2, 20])),
    "hist_prob": lambda ctx, f: intervals(f.hist(bins=[-1, 0, 2], closed="right", stat="probability")),
    "values_in_range": lambda ctx, f: list(f.values_in_range()),
    "describe": lambda ctx, f: ser(f.describe()),
    "agg": lambda ctx, f: ser(f.agg(["mean", "integral", "max"])),
    "agg_where": lambda ctx, f: ser(f.agg(["mean", "median", "min"], tuple(_pts(ctx, 0, 2)))),
    "dist_percentile": lambda ctx, f: num_steps(ctx, f.dist.percentile),
    "dist_ecdf": lambda ctx, f: num_steps(ctx, f.dist.ecdf),
    "step_values": lambda ctx, f: ser(f.step_values),
    "step_changes": lambda ctx, f: ser(f.step_changes),
    "to_frame": lambda ctx, f: list(f.to_frame()["value"].values),
    "sample": lambda ctx, f: list(f.sample(_pts(ctx, -1, 0, 1, 2, 5))),
    "number_of_steps": lambda ctx, f: [f.number_of_steps],
    "slices": lambda ctx, f: list(f.slice(_pts(ctx, -1, 1, 2)).mean().values),
    "rolling_mean": lambda ctx, f: ser(f.rolling_mean((ctx.dom.dur(ctx.lit(-1)), ctx.dom.dur(ctx.lit(1))),
                                                      tuple(_pts(ctx, -1, 3)))),
    "cov": lambda ctx, f: [f.cov(f, tuple(_pts(ctx, 0, 2)))],
    "bool": lambda ctx, f: [bool(f)],
}
CORE = ["integral", "mean", "median", "mode", "var", "std", "min", "max", "value_sums", "ecdf", "percentile", "fractile",
        "hist", "describe"]
MUTS = ["scalar", "vector", "start", "end", "all", "frame", "step_at", "tuple", "cancel"]


def mutate(ctx, s, kind, v):
    """one public layer call"""
    a, b = _pts(ctx, 0, 2)
    if kind == "scalar":
        s.layer(a, b, v)
    elif kind == "vector":
        s.layer([a], [b], [v])
    elif kind == "tuple":
        s.layer((a, b), (b, _pts(ctx, 3)[0]), (v, 1))
    elif kind == "start":
        s.layer(a, None, v)
    elif kind == "end":
        s.layer(None, b, v)
    elif kind == "all":
        s.layer(None, None, v)
    elif kind == "frame":
        s.layer("s", "e", "v", frame=ctx.pd.DataFrame({"s": [a], "e": [b], "v": [v]}))
    elif kind == "step_at":  # exactly on existing step points
        p, q = _pts(ctx, *ctx.get("fpts")[:2])
        s.layer(p, q, v)
    elif kind == "cancel":  # two calls which leave the function as it was
        s.layer(a, b, v)
        s.layer([a], [b], [-v])
    elif kind == "null":  # an empty interval
        s.layer(a, a, v)
    elif kind == "zero":
        s.layer(a, b, 0)
    else:
        raise ValueError(kind)


def play(ctx, s, history, upto=None, ask=True):
    """run a history on s; the queries' answers, in order"""
    out, flip = [], {}
    for i, step in enumerate(history):
        if step.startswith("?"):
            if ask:
                out.append(ctx.call(QUERIES[step[1:]], ctx, s))
        else:
            kind, tag = step.split(":")
            v = -ctx.val("m" + tag[1:], False) if tag[0] == "-" else ctx.val("m" + tag, False)
            mutate(ctx, s, kind, v)
    return out


def same(ctx, a, b, label):
    (x, ex), (y, ey) = a, b
    if ex is not None or ey is not None:
        ctx.prove(ex is not None and ey is not None and type(ex) is type(ey),
                  "%s: %s instead of %s" % (label, ex or "an answer", ey or "an answer"))
        return
    ctx.prove(len(x) == len(y), label + ": number of entries")
    for p, q in zip(x, y):
        if p is None or q is None:
            ctx.prove(p is None and q is None, label)
            continue
        isnum = []
        for z in (p, q):
            try:
                z = ctx.num(z)
                isnum.append(z)
            except Exception:  # noqa: BLE001
                pass
        if len(isnum) == 2:
            ctx.prove_same(isnum[0], isnum[1], label)
        else:
            ctx.prove(p == q, label)


def seen(ctx, ans):
    out = []
    for z in ans or []:
        try:
            out.append(ctx.num(z))
        except Exception:  # noqa: BLE001  (a label or a duration)
            out.append(None)
    return out


def interleave(ctx):
    """each query of a history answers as a fresh, equal function would"""
    n, form, closed = ctx.get("n"), ctx.get("form", "V"), ctx.get("closed", "left")
    f, F = ctx.stairs("f", n, form, True, closed)
    hist = ctx.get("h")
    got = play(ctx, f, hist)
    k = 0
    for i, step in enumerate(hist):
        if not step.startswith("?"):
            continue
        fresh, _ = ctx.stairs("f", n, ctx.get("fresh", form), True, closed)
        play(ctx, fresh, hist[:i], ask=False)
        want = ctx.call(QUERIES[step[1:]], ctx, fresh)
        ctx.observe("q%d" % k, seen(ctx, want[0]))
        same(ctx, got[k], want, "%s after %s" % (step[1:], ", ".join(hist[:i]) or "nothing"))
        k += 1


HARNESSES = {"interleave": interleave}
BOUNDS = {
    "quick": "histories query - layer - query over all pairs of the statistic / distribution queries, query - query, and "
             "histories with two mutations (including back to an earlier state); scalar, vector, frame, half-unbounded, "
             "cancelling and empty layer calls with a symbolic value; functions with 0..3 step points",
    "thorough": "all pairs of queries x all mutation kinds x internal forms, longer histories",
}
NV = {0: [2], 1: [1, 3], 2: [1, 3, 0], 3: [None, 1, 3, 0], 4: [2, 1, None, 3, 2]}
PT = [-1, 1, 2.5, 4]


def shape(n, form="V"):
    vals = NV[n]
    if form in ("D", "DV", "S") or n == 0:
        vals = [2, 1, 3, 0, 2][:n + 1]
    return dict(n=n, form=form, fpts=PT[:n], fvals=vals)


def configs(tier):
    big = tier == "thorough"
    forms = ("V", "D") if not big else ("V", "VD", "D", "DV", "VL", "VN")
    qs = list(QUERIES)
    for q in qs:
        for m in MUTS + ["null", "zero"]:
            for n in (0, 1, 2, 3) + ((4,) if big else ()):
                if m == "step_at" and n < 2:
                    continue
                for form in forms:
                    if n == 0 and form != "V":
                        continue
                    yield "interleave", dict(shape(n, form), h=["?" + q, m + ":1", "?" + q])
        for n, form in ((3, "V"), (2, "D")):
            yield "interleave", dict(shape(n, form), h=["?" + q, "scalar:1", "?" + q, "vector:-1", "?" + q])
            yield "interleave", dict(shape(n, form), h=["?" + q, "vector:1", "?" + q, "scalar:-1", "?" + q])
            yield "interleave", dict(shape(n, form), h=["scalar:1", "?" + q, "end:-1", "?" + q])
            yield "interleave", dict(shape(n, form), h=["all:1", "?" + q, "all:-1", "?" + q])
            yield "interleave", dict(shape(n, form), h=["?" + q, "scalar:1", "?" + q], closed="right")
            if "ecdf_at" != q and "hist" not in q:
                yield "interleave", dict(shape(n, form), h=["?" + q, "scalar:1", "?" + q], dom="ts")
                yield "interleave", dict(shape(n, form), h=["?" + q, "vector:1", "?" + q], dom="td")
    for a in qs:
        for b in qs:
            if a == b:
                continue
            for m in ("scalar", "vector") if not big else MUTS:
                for n, form in ((3, "V"), (2, "D")) if big or a in CORE or b in CORE else ((2, "V"),):
                    if m == "vector" and not big and (a not in CORE or b not in CORE):
                        continue
                    yield "interleave", dict(shape(n, form), h=["?" + a, m + ":1", "?" + b])
            yield "interleave", dict(shape(3, "V"), h=["?" + a, "?" + b])
            if big:
                yield "interleave", dict(shape(3, "V"), h=["?" + a, "?" + b, "start:1", "?" + a, "?" + b])
    for a in CORE:  # symbolic values throughout
        if a in ("var", "std", "describe", "hist"):
            continue
        for m in ("scalar", "vector"):
            for form in ("V", "D"):
                yield "interleave", dict(n=2, form=form, fpts=[-1, 1], h=["?" + a, m + ":1", "?" + a])
