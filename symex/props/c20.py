"""C20: shift, diff and rolling_mean are exact translations and window means."""
from ..ctx import Fn, combine, merge, restrict
from .c08 import pieces, total
from .c13 import changes, same_changes
from .common import FORMS

ID = "C20"


def amount(ctx, name="d"):
    """a shift: any real, or a fixed one in some flavour"""
    k = ctx.get("d", "sym")
    if k == "sym":
        d = ctx.real(name, dom=True)
        return ctx.dom.dur(d), d
    d = ctx.lit(k)
    np, pd = ctx.np, ctx.pd
    t = ctx.get("dt")
    if ctx.dom.numeric:
        conv = {None: float, "int": int, "np.int64": np.int64, "np.float64": np.float64}[t]
        return conv(k), d
    if t == "py":
        import datetime

        return datetime.timedelta(hours=k), d
    if t == "np":
        return np.timedelta64(int(k * 60), "m"), d
    return pd.Timedelta(k, unit="h"), d


def whole(ctx, h, H, label):
    """the right function, through every view"""
    K = ctx.fn(h, key=label)
    ctx.prove_same_fn(K, H, label)
    ctx.prove(h.closed == ctx.get("closed", "left"), label + ": closed side")
    if K.pts:
        fresh = ctx.sc.Stairs.from_values(
            initial_value=h.initial_value, closed=h.closed,
            values=ctx.pd.Series(list(h.step_values.values), index=h.step_values.index))
        same_changes(ctx, changes(ctx, h), changes(ctx, fresh), label + ": step changes")
    df = h.to_frame()
    ctx.prove(len(df) == len(K.pts) + 1, label + ": to_frame")
    for a, b in zip(list(df["value"].values), K.vals):
        ctx.prove_same(ctx.num(a), b, label + ": to_frame")


def translate(ctx):
    """shift and diff"""
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"))
    d, xd = amount(ctx)
    D = F.shift(xd)
    what = ctx.get("what")
    if what == "shift":
        h = f.shift(d)
        whole(ctx, h, D, "shift")
        for p in F.pts:  # what evaluation shows
            x = ctx.dom.pt(p + xd)
            ctx.prove_same(h(x), F.at(p, f.closed), "f.shift(d)(x + d) == f(x)")
            ctx.prove_same(h.limit(x, "left"), F.left(p), "left limit of f.shift(d)")
            ctx.prove_same(h.limit(x, "right"), F.right(p), "right limit of f.shift(d)")
    elif what == "diff":
        whole(ctx, f.diff(d), combine(lambda a, b: a - b, F, D), "diff")
    elif what == "twice":
        e, xe = amount(ctx, "e")
        whole(ctx, f.shift(d).shift(e), F.shift(xd + xe), "shift twice")
    elif what == "back":
        h = f.shift(d).shift(-d)
        whole(ctx, h, F, "shift there and back")
        ctx.prove(ctx.get("d", "sym") != "sym" or ctx.dom.kind != "float" or bool(h.identical(f)) or not ctx.symbolic,
                  "shift(d).shift(-d) is identical")
    elif what == "then":
        from .common import apply_op

        h, H = apply_op(ctx, ctx.get("op"), f.shift(d), D, f, F, tag="t")
        ctx.prove_same_fn(ctx.fn(h, key="then"), H, "shift then " + ctx.get("op"))
    whole(ctx, f, F, "the operand itself")


def num_or_dur(ctx, c):
    return ctx.dom.dur(c)


def rolling(ctx):
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"))
    if ctx.get("window"):
        l, r = (ctx.lit(x) for x in ctx.get("window"))
    else:
        l, r = ctx.real("l", dom=True), ctx.real("r", dom=True)
        ctx.assume(l < r)
        if ctx.get("sign") == "trail":
            ctx.assume(r == 0)
        elif ctx.get("sign") == "lead":
            ctx.assume(l == 0)
    win = ctx.get("where", [None, None])
    a, b = (None if x is None else ctx.real("w" + x, dom=True) if isinstance(x, str) else ctx.lit(x) for x in win)
    if a is not None and b is not None:
        ctx.assume(a < b)
    label = lambda x, inf: (None if ctx.get("none") else inf) if x is None else ctx.dom.pt(x)  # noqa: E731
    where = (label(a, -ctx.inf), label(b, ctx.inf))
    if ctx.get("listy"):
        where = list(where)
    window = (ctx.dom.dur(l), ctx.dom.dur(r))
    if ctx.get("listy"):
        window = list(window)
    kw = {"window": window}
    if win != [None, None] or ctx.get("none"):
        kw["where"] = where
    s = f.rolling_mean(**kw)
    ctx.prove(isinstance(s, ctx.pd.Series), "rolling_mean returns a Series")
    ys = [ctx.num(y) for y in list(s.values)]
    # f within `where`
    G = restrict(F, a, b, ctx.nanv())
    G = minimal(ctx, G)
    if not G.pts:  # constant, or undefined, throughout
        for y in ys:
            ctx.prove_same(y, G.vals[0], "rolling mean of a constant")
        ctx.prove(len(ys) > 0, "rolling mean of a constant: some points")
        return
    xs = [ctx.dom.unpt(x) for x in list(s.index)]
    if ctx.dom.kind in ("tz", "dst", "fix") and xs:
        ctx.prove(str(s.index.tz) == str(ctx.dom.origin.tz), "rolling mean keeps the timezone")
    ctx.observe("rm", [xs, ys])
    for p, q in zip(xs, xs[1:]):
        ctx.prove(p < q, "rolling mean: points strictly increasing")
    # every x at which a window edge meets a step point, the window being within `where`
    want = merge([p - r for p in G.pts], [p - l for p in G.pts])
    inside = lambda x: ctx.And(True if a is None else x + l >= a, True if b is None else x + r <= b)  # noqa: E731
    for x in want:
        ctx.prove(ctx.Or(ctx.Not(inside(x)), *[y == x for y in xs]), "rolling mean: a point is missing")
    for x, y in zip(xs, ys):
        ctx.prove(inside(x), "rolling mean: window not within where")
        if ctx.get("knots"):
            continue
        T, I = total(ctx, pieces(cut(ctx, F, x + l, x + r)))
        ctx.prove(ctx.Iff(ctx.isnan(y), ctx.Not(T > 0)), "rolling mean: defined where the window meets f's domain")
        ctx.prove(ctx.Or(ctx.isnan(y), ctx.same(y * T, I)), "rolling mean: mean over the window")
    if ctx.get("interp"):
        interpolation(ctx, F, xs, ys, l, r, a, b)


def cut(ctx, F, lo, hi):
    """F between two points, with both as (possibly redundant) break points"""
    return restrict(F, lo, hi, ctx.nanv())


def minimal(ctx, F):
    pts, vals = [], [F.vals[0]]
    for p, v in zip(F.pts, F.vals[1:]):
        if bool(ctx.same(v, vals[-1])):
            continue
        pts.append(p)
        vals.append(v)
    return Fn(pts, vals)


def interpolation(ctx, F, xs, ys, l, r, a, b):
    """between, before and after the returned points"""
    x = ctx.real("x", dom=True)
    if a is not None:
        ctx.assume(x + l >= a)
    if b is not None:
        ctx.assume(x + r <= b)
    ps = pieces(cut(ctx, F, x + l, x + r))
    for _, v in ps:  # f is defined throughout the window
        ctx.assume(ctx.Not(ctx.isnan(v)))
    _, I = total(ctx, ps)
    want = I / (r - l)
    ctx.prove(len(xs) > 0, "rolling mean: no points")
    if x <= xs[0]:
        ctx.prove_same(ys[0], want, "rolling mean before the first point")
    elif x >= xs[-1]:
        ctx.prove_same(ys[-1], want, "rolling mean after the last point")
    else:
        for x0, x1, y0, y1 in zip(xs, xs[1:], ys, ys[1:]):
            if x0 <= x and x <= x1:
                # linear interpolation, if f is defined throughout both windows
                for x_ in (x0, x1):
                    for _, v in pieces(cut(ctx, F, x_ + l, x_ + r)):
                        ctx.assume(ctx.Not(ctx.isnan(v)))
                ctx.prove_same(want * (x1 - x0), y0 * (x1 - x) + y1 * (x - x0), "linear interpolation")
                break


HARNESSES = {"translate": translate, "rolling": rolling}
BOUNDS = {
    "quick": "shift / diff: 0..3 symbolic step points, symbolic possibly undefined values, symbolic shift of either sign and "
             "zero (two shifts in a row), all internal forms, int / float / Timestamp / tz / Timedelta labels. rolling_mean: "
             "values symbolic and possibly undefined on 0..3 fixed step points with eight fixed windows and bounded, "
             "half-bounded and unbounded where; knot sets with symbolic step points, windows and where on 1..2 steps; "
             "interpolation at a symbolic point",
    "thorough": "4 step points, more windows, layouts and domains; means with symbolic step points on up to 2 steps",
}
WINDOWS = ([-1, 0], [0, 1], [-1, 1], [-0.5, 2], [-3, -1], [1, 2], [-2, 0.25], [0, 5])
WHERE = ([None, None], [0, 4], [-1, 2.5], [1, None], [None, 2], [2.5, 3])


def configs(tier):
    big = tier == "thorough"
    for n in (0, 1, 2, 3) + ((4,) if big else ()):
        for form in FORMS if n else ("V",):
            for what in ("shift", "diff", "twice", "back"):
                if what == "diff" and n == 3 and form != "V" and not big:
                    continue
                if what == "diff" and n == 4:
                    continue
                for closed in ("left", "right"):
                    if closed == "right" and n > 1 and not big:
                        continue
                    yield "translate", dict(what=what, n=n, form=form, closed=closed)
                    if n in (0, 1, 2):
                        for d in (0, 1, -2.5):
                            yield "translate", dict(what=what, n=n, form=form, closed=closed, d=d)
        for op in ("add", "sub", "lt", "or", "mask", "fillna", "agg_max"):
            for closed in ("left", "right"):
                if n < 3:
                    yield "translate", dict(what="then", op=op, n=n, form="D" if n else "V", closed=closed)
                    if n:
                        yield "translate", dict(what="then", op=op, n=n, form="VD", closed=closed, d=-1)
    for dom in ("int", "ts", "tz", "dst", "td"):
        for n in (0, 1, 2):
            for what in ("shift", "diff", "twice", "back"):
                for form in ("V", "D", "VD") if n else ("V",):
                    for d in ([0, 1, -2] + ([] if dom == "int" else ["sym"])) if dom == "int" or n else [1]:
                        for dt in ((None, "int", "np.int64") if dom == "int" else (None, "py", "np")) if d != "sym" else (None,):
                            if dt in (None,) and dom == "int":
                                continue
                            yield "translate", dict(what=what, n=n, form=form, dom=dom, d=d, dt=dt,
                                                    fpts=[0, 3][:n] if dom == "int" else None)
    for n in (0, 1, 2):
        for d in (0, 2, -1):
            for dt in ("int", "np.int64", "np.float64"):
                yield "translate", dict(what="shift", n=n, d=d, dt=dt)
                yield "translate", dict(what="diff", n=n, d=d, dt=dt, form="D" if n else "V")
    # -- rolling_mean
    P = {0: [], 1: [1], 2: [0, 2], 3: [0, 1, 3], 4: [0, 1, 1.5, 3]}
    P2 = {1: [0], 2: [0.5, 1], 3: [-1, 0.5, 2], 4: [-1, 0, 2, 2.25]}
    k = 0
    for n in (0, 1, 2, 3) + ((4,) if big else ()):
        for pts in (P, P2):
            if n not in pts:
                continue
            for w in WINDOWS:
                for wh in WHERE:
                    for form in FORMS if n and big else (FORMS[k % 6] if n else "V",):
                        k += 1
                        nan = bool(n < 3 or k % 3 == 0 or big)
                        c = dict(n=n, form=form, window=w, where=wh, fpts=pts[n], nan=nan)
                        if k % 5 == 0:
                            c["closed"] = "right"
                        if k % 7 == 0:
                            c["none"] = True
                        if k % 4 == 0:
                            c["listy"] = True
                        yield "rolling", c
                        if n and (k % 3 == 0 or big):
                            yield "rolling", dict(c, interp=True, nan=n < 3 and k % 2 == 0)
                        if k % 6 == 0 or big:
                            yield "rolling", dict(c, dom=("ts", "tz", "td", "dst")[k // 6 % 4])
                        if k % 11 == 0 and float(w[1]) % 1 == 0 and float(w[0]) % 1 == 0 and \
                                not any(x is not None and x % 1 for x in wh + pts[n]):
                            yield "rolling", dict(c, dom="int")
    for n in (1, 2) + ((3,) if big else ()):
        fv = dict(fvals=[1, 3, None, 2][:n + 1])
        gv = dict(fvals=[2, 5, -1, 4][:n + 1])
        for wh in ([None, None], ["a", "b"], ["a", None], [None, "b"]):
            for v in (fv, gv):
                if n < 2 or wh == [None, None] or big:
                    yield "rolling", dict(n=n, where=wh, knots=True, **v)
                yield "rolling", dict(n=n, where=wh, knots=True, window=[-1, 2], **v)
                if n == 1 or big:
                    yield "rolling", dict(n=n, where=wh, knots=True, fpts=P[n], **v)
                    yield "rolling", dict(n=n, where=wh, window=[-1, 2], **v)
                    yield "rolling", dict(n=n, where=wh, window=[0.5, 1], **v)
            if n == 1:
                for sign in ("trail", "lead"):
                    yield "rolling", dict(n=n, where=wh, knots=True, sign=sign, **gv)
