"""C19: cov and corr are the length-weighted moments over the common defined window."""
from ..ctx import combine, restrict, Fn
from .common import FORMS

ID = "C19"


def common(ctx, F, G, a, b):
    """finite pieces of [a, b): (length or 0 where not both are defined, f, g)"""
    F, G = restrict(F, a, b, ctx.nanv()), restrict(G, a, b, ctx.nanv())
    P = combine(lambda u, v: (u, v), F, G)
    out = []
    for p, q, (u, v) in zip(P.pts, P.pts[1:], P.vals[1:]):
        un = ctx.Or(ctx.isnan(u), ctx.isnan(v))
        l = ctx.ite(un, 0, q - p)
        out.append((l, ctx.ite(un, 0, u), ctx.ite(un, 0, v)))
    return out


def moments(ctx, ps):
    z = ctx.lit(0)
    T = If = Ig = Ifg = Iff = Igg = z
    for l, u, v in ps:
        T, If, Ig = T + l, If + l * u, Ig + l * v
        Ifg, Iff, Igg = Ifg + l * u * v, Iff + l * u * u, Igg + l * v * v
    return T, T * Ifg - If * Ig, T * Iff - If * If, T * Igg - Ig * Ig


def pos(ctx, c):
    """c > 0, up to rounding in concrete mode"""
    return c > (0 if ctx.symbolic else 1e-12)


def setting(ctx):
    c = ctx.get("closed", "left")
    f, F = ctx.stairs("f", ctx.get("nf"), ctx.get("ff", "V"), ctx.get("nan", True), c)
    if ctx.get("same"):
        g, G = f, F
    else:
        g, G = ctx.stairs("g", ctx.get("ng"), ctx.get("fg", "V"), ctx.get("nan_g", ctx.get("nan", True)), c)
    wh = ctx.get("where", [0, 3])
    a, b = (ctx.real("w" + x, dom=True) if isinstance(x, str) else ctx.lit(x) for x in wh)
    ctx.assume(a < b)
    kw = {"where": [ctx.dom.pt(a), ctx.dom.pt(b)]}
    if not ctx.get("listy"):
        kw["where"] = tuple(kw["where"])
    lag, up, H = ctx.get("lag"), b, G
    if lag is not None:
        lag = ctx.real("lag", dom=True) if isinstance(lag, str) else ctx.lit(lag)
        if ctx.get("lag") == "pos":
            ctx.assume(lag > 0)
        elif ctx.get("lag") == "neg":
            ctx.assume(lag < 0)
        kw["lag"] = ctx.dom.dur(lag)
        if ctx.get("lagt") == "int":
            kw["lag"] = int(ctx.get("lag"))
        elif ctx.get("lagt") == "py":
            import datetime

            kw["lag"] = datetime.timedelta(hours=ctx.get("lag"))
        mode = ctx.get("clip")
        if mode:
            kw["clip"] = mode
        H = G.shift(-lag)
        if mode != "post":
            up = b - lag
        ctx.assume(a < up)
    return f, F, g, H, kw, a, up


def run(ctx):
    f, F, g, G, kw, a, b = setting(ctx)
    op = ctx.get("op")
    r = ctx.num(getattr(f, op)(g, **kw) if not ctx.get("positional")
                else getattr(f, op)(g, kw["where"], *([kw["lag"]] if "lag" in kw else [])))
    ctx.observe(op, r)
    T, C, A, B = moments(ctx, common(ctx, F, G, a, b))
    if op == "cov":
        ctx.prove(ctx.Iff(ctx.isnan(r), ctx.Not(T > 0)), "cov is defined where f and g have a common domain")
        ctx.prove(ctx.Or(ctx.isnan(r), ctx.same(r * T * T, C)), "cov")
    else:
        ctx.prove(ctx.Iff(ctx.isnan(r), ctx.Not(ctx.And(T > 0, pos(ctx, A), pos(ctx, B)))),
                  "corr is NaN exactly where a standard deviation is zero")
        ctx.prove(ctx.Or(ctx.isnan(r), ctx.And(ctx.same(r * r * A * B, C * C), r * C >= (0 if ctx.symbolic else -1e-9))),
                  "corr")
        if ctx.get("bound"):
            ctx.prove(ctx.Or(ctx.isnan(r), r * r <= (1 if ctx.symbolic else 1 + 1e-9)), "corr lies in [-1, 1]")


def symmetric(ctx):
    f, F, g, G, kw, a, b = setting(ctx)
    op = ctx.get("op")
    r, s = ctx.num(getattr(f, op)(g, **kw)), ctx.num(getattr(g, op)(f, **kw))
    if op == "cov":
        ctx.prove_same(r, s, "cov is symmetric")
    else:
        ctx.prove(ctx.Iff(ctx.isnan(r), ctx.isnan(s)), "corr is symmetric: definedness")
        ctx.prove(ctx.Or(ctx.isnan(r), ctx.same(r, s)), "corr is symmetric")


def own(ctx):
    """cov(f, f) is var(f)"""
    f, F, g, G, kw, a, b = setting(ctx)
    r = ctx.num(f.cov(f, **kw))
    T, C, A, B = moments(ctx, common(ctx, F, F, a, b))
    ctx.assume(T > 0)
    ctx.prove_same(r * T * T, A, "cov(f, f) is the variance")
    v = f.agg("var", kw["where"])
    ctx.prove_same(v, r, "cov(f, f) is var(f)")


def lagged(ctx):
    """a lag is a shift of the second operand"""
    f, F, g, G, kw, a, b = setting(ctx)
    op = ctx.get("op")
    r = ctx.num(getattr(f, op)(g, **kw))
    s = ctx.num(getattr(f, op)(g.shift(-kw["lag"]), where=(ctx.dom.pt(a), ctx.dom.pt(b))))
    ctx.prove_same(r, s, op + " with a lag is " + op + " with the shifted function")


HARNESSES = {"run": run, "symmetric": symmetric, "own": own, "lagged": lagged}
BOUNDS = {
    "quick": "0..2 step points per operand: symbolic, possibly undefined values at fixed points, windows and lags (both signs, "
             "both clip modes); symbolic step points, windows and lags with fixed partly undefined values; int / Timestamp / "
             "tz / Timedelta domains with Timedelta lags. Windows are finite and non-empty after the lag",
    "thorough": "3 step points per operand, more layouts",
}
V = [dict(f=[2], g=[3]), dict(f=[1, 3], g=[2, 5]), dict(f=[None, 3], g=[2, 5]), dict(f=[1, 3], g=[4, None]),
     dict(f=[1, 4, 2], g=[0, 2]), dict(f=[1, None, 2], g=[5, 2]), dict(f=[2, 5], g=[None, 3, 1]),
     dict(f=[1, 3, 0], g=[2, None, 7]), dict(f=[None, 3, -1], g=[2, 4, None]), dict(f=[1, 3, 0], g=[-2, 5, 1]),
     dict(f=[2], g=[1, 3, 2]), dict(f=[None, 2], g=[None, 3, None])]


def configs(tier):
    big = tier == "thorough"
    L = {0: [], 1: [1], 2: [1, 2], 3: [0.5, 1, 2]}
    M = {0: [], 1: [2], 2: [0.5, 2], 3: [1, 2, 2.5]}
    k = 0
    LAGS = (None, (1, "pre"), (1, "post"), (-1, "pre"), (-1, "post"), (0.5, None), (0, "pre"), (2, "pre"))
    for nf in (0, 1, 2) + ((3,) if big else ()):
        for ng in (0, 1, 2) + ((3,) if big else ()):
            if nf + ng > (5 if big else 4):
                continue
            for where in ([0, 3], [0.5, 1.5], [-1, 2], [1, 2]):
                for lg in LAGS:
                    for op in ("cov", "corr"):
                        k += 1
                        lag = {} if lg is None else dict(lag=lg[0], clip=lg[1])
                        if lg and lg[1] != "post" and where[0] >= where[1] - lg[0]:
                            continue
                        c = dict(op=op, nf=nf, ng=ng, ff=FORMS[k % 6] if nf else "V", fg=FORMS[k // 6 % 6] if ng else "V",
                                 fpts=L[nf], gpts=M[ng], where=where, **lag)
                        if k % 5 == 0:
                            c["closed"] = "right"
                        if k % 7 == 0:
                            c["listy"] = True
                        if op == "corr":  # one operand symbolic
                            val = [[2, None, 5, 1], [0, 3, 1, None], [1, 4, 2, 2.5]][k % 3]
                            if k % 2:
                                c["gvals"] = val[:ng + 1]
                                c["fg"] = "V"
                            else:
                                c["fvals"] = val[:nf + 1]
                                c["ff"] = "V"
                            if nf + ng > 2 and not big and k % 3:
                                c["fvals"], c["gvals"] = [1, 3, None, 2][:nf + 1], [2, 5, 4, 1][:ng + 1]
                                c["ff"] = c["fg"] = "V"
                        yield "run", c
                        if lg is None or lg[0] in (1, -1):
                            if op == "cov" or "fvals" in c and "gvals" in c:
                                if lg is None:
                                    yield "symmetric", c
                                else:
                                    yield "lagged", c
                        if k % 4 == 0:
                            yield "run", dict(c, dom=("ts", "tz", "td", "dst")[k // 4 % 4])
                        if k % 6 == 0 and all(x % 1 == 0 for x in where + L[nf] + M[ng]) and (lg is None or lg[0] % 1 == 0):
                            yield "run", dict(c, dom="int", **(dict(lagt="int") if lg else {}))
                        if lg and k % 5 == 0 and lg[0] % 1 == 0:
                            yield "run", dict(c, dom="ts", lagt="py")
    for v in V:
        nf, ng = len(v["f"]) - 1, len(v["g"]) - 1
        c = dict(nf=nf, ng=ng, fvals=v["f"], gvals=v["g"])
        for op in ("cov", "corr"):
            if op == "corr" and nf + ng > 2 and not big:  # costly
                yield "run", dict(c, op=op, fpts=L[nf], gpts=M[ng])
                if nf + ng == 3:
                    yield "run", dict(c, op=op, fpts=L[nf], gpts=M[ng], where=[0, "b"], lag=1, clip="pre")
                    yield "run", dict(c, op=op, fpts=L[nf], gpts=M[ng], lag="pos", clip="pre")
                continue
            # symbolic window
            if op == "cov" or nf + ng < 4:
                yield "run", dict(c, op=op, fpts=L[nf], gpts=M[ng], where=["a", "b"])
            yield "run", dict(c, op=op, fpts=L[nf], gpts=M[ng], where=[0, "b"], lag=1, clip="pre", positional=True)
            yield "run", dict(c, op=op, fpts=L[nf], gpts=M[ng], where=["a", 3], lag=-1, clip="post", closed="right")
            # symbolic lag
            for sgn in ("pos", "neg"):
                for clip in ("pre", "post"):
                    yield "run", dict(c, op=op, fpts=L[nf], gpts=M[ng], lag=sgn, clip=clip)
            # symbolic step points
            if nf + ng <= 2 or big:
                yield "run", dict(c, op=op)
                yield "run", dict(c, op=op, lag=1, clip="pre")
            yield "run", dict(c, op=op, fpts=L[nf], bound=True)
            yield "run", dict(c, op=op, gpts=L[ng], closed="right")
            yield "symmetric", dict(c, op=op, fpts=L[nf], gpts=M[ng], where=[0, "b"])
            yield "lagged", dict(c, op=op, fpts=L[nf], gpts=M[ng], lag="pos", clip="pre")
            yield "lagged", dict(c, op=op, fpts=L[nf], gpts=M[ng], lag="neg", clip="post")
            for dom in ("ts", "tz", "td"):
                yield "run", dict(c, op=op, fpts=L[nf], gpts=M[ng], lag="neg", clip="pre", dom=dom)
    for n in (0, 1, 2):
        for form in FORMS if n else ("V",):
            for where in ([0, 3], [0.5, 1.5]):
                yield "own", dict(op="cov", nf=n, ff=form, fpts=L[n], where=where, same=True)
        for dom in ("int", "ts", "td"):
            yield "own", dict(op="cov", nf=n, fpts=L[n], same=True, dom=dom)
