"""C18: collection aggregations and array operators are pointwise over the members."""
from itertools import product

from ..ctx import combine, const
from .common import BIN, FORMS, PYOP, cmp2

ID = "C18"


# ------------------------------------------------------------------ pointwise meanings
def und(ctx, vs, v):
    return ctx.ite(ctx.Or(*[ctx.isnan(x) for x in vs]), ctx.nanv(), v)


def least(ctx, vs):
    m = vs[0]
    for v in vs[1:]:
        m = ctx.ite(v < m, v, m)
    return m


def most(ctx, vs):
    m = vs[0]
    for v in vs[1:]:
        m = ctx.ite(v > m, v, m)
    return m


def total(vs):
    t = vs[0]
    for v in vs[1:]:
        t = t + v
    return t


def middle(ctx, vs):
    """median: bubble sort of terms"""
    vs = list(vs)
    for i in range(len(vs)):
        for j in range(len(vs) - 1 - i):
            a, b = vs[j], vs[j + 1]
            c = a <= b
            vs[j], vs[j + 1] = ctx.ite(c, a, b), ctx.ite(c, b, a)
    h = len(vs) // 2
    return vs[h] if len(vs) % 2 else (vs[h - 1] + vs[h]) / 2


def safe(ctx, f):
    """terms of undefined values replaced, the result undefined there"""
    def go(vs):
        return und(ctx, vs, f([ctx.ite(ctx.isnan(v), 0, v) for v in vs]))
    return go


def spec(ctx, op):
    return {
        "sum": safe(ctx, total),
        "mean": safe(ctx, lambda vs: total(vs) / len(vs)),
        "median": safe(ctx, lambda vs: middle(ctx, vs)),
        "min": safe(ctx, lambda vs: least(ctx, vs)),
        "max": safe(ctx, lambda vs: most(ctx, vs)),
        "logical_or": safe(ctx, lambda vs: ctx.ind(ctx.Or(*[ctx.Not(v == 0) for v in vs]))),
        "logical_and": safe(ctx, lambda vs: ctx.ind(ctx.And(*[ctx.Not(v == 0) for v in vs]))),
    }[op]


# --------------------------------------------------------------------------- members
def members(ctx):
    out = []
    ns, forms = ctx.get("ns"), ctx.get("forms", ["V"] * 9)
    for i, n in enumerate(ns):
        if ctx.get("dup") and i == len(ns) - 1 and i:
            out.append(out[0])  # the same object again
            continue
        form, kw = forms[i % len(forms)], {}
        if form == "I":
            form, kw = "V", dict(vtype="i")
        out.append(ctx.stairs("fghk"[i], n, form if n else "V", form != "I" and not kw and ctx.get("nan", True),
                              ctx.get("closed", "left"), **kw))
    return [s for s, _ in out], [S for _, S in out]


KEYS = ["a", "b", "c", "d"]


def boxed(ctx, ms, box):
    sc, pd, np = ctx.sc, ctx.pd, ctx.np
    if box == "list":
        return list(ms)
    if box == "tuple":
        return tuple(ms)
    if box == "dict":
        return dict(zip(KEYS, ms))
    if box == "ndarray":
        return np.array(list(ms))
    if box == "array":
        return sc.StairsArray(list(ms))
    if box == "series":
        return pd.Series(list(ms), dtype="Stairs")
    if box == "oseries":
        return pd.Series(list(ms))
    if box == "xseries":
        return pd.Series(list(ms), index=KEYS[:len(ms)])
    if box == "nseries":  # integer labels which are not positions
        return pd.Series(list(ms), index=list(range(len(ms)))[::-1])
    if box == "dseries":  # a repeated label
        return pd.Series(list(ms), index=["a"] * len(ms))
    raise ValueError(box)


def labels(box, k):
    if box in ("dict", "xseries"):
        return KEYS[:k]
    if box == "nseries":
        return list(range(k))[::-1]
    if box == "dseries":
        return ["a"] * k
    return list(range(k))


def agg(ctx):
    ms, Ms = members(ctx)
    op, how, box = ctx.get("op"), ctx.get("how", "top"), ctx.get("box", "list")
    col = boxed(ctx, ms, box)
    np = ctx.np
    if how == "top":
        h = getattr(ctx.sc, op)(col)
    elif how == "method":  # StairsArray.sum() ..., Series.sum() ..., accessor
        h = getattr(col.sc if op.startswith("log") and box != "array" else col, op)()
    else:
        h = ctx.sc.agg(col, {"sum": np.sum, "mean": np.mean, "median": np.median, "min": np.min, "max": np.max}[op])
    pt = spec(ctx, op)
    H = combine(lambda *vs: pt(list(vs)), *Ms)
    K = ctx.fn(h, key="result")
    ctx.prove_same_fn(K, H, op)
    ctx.prove_minimal(K, op)
    ctx.prove(h.closed == ctx.get("closed", "left"), op + ": closed side")
    if op == "sum":
        t = ms[0]
        for m in ms[1:]:
            t = t + m
        ctx.prove_same_fn(ctx.fn(t), K, "sum equals folding +")
    if ctx.get("dom") in ("tz", "dst", "fix") and K.pts:
        ctx.prove(str(h.step_values.index.tz) == str(ctx.dom.origin.tz), op + ": timezone")
    for m, M in zip(ms, Ms):
        ctx.prove_same_fn(ctx.fn(m), M, "member after " + op)


def elementwise(ctx):
    """array operators"""
    sc, pd, np = ctx.sc, ctx.pd, ctx.np
    ms, Ms = members(ctx)
    op, other = ctx.get("op"), ctx.get("other")
    arr = boxed(ctx, ms, ctx.get("box", "array"))
    if other in ("array", "list", "tuple", "ndarray", "series", "oseries"):
        p, P = ctx.stairs("p", ctx.get("np", 1), "V" if ctx.get("np", 1) == 0 else ctx.get("fp", "D"), True,
                          ctx.get("closed", "left"))
        others, Os = [p] + ms[:-1], [P] + Ms[:-1]
        x = boxed(ctx, others, other)
    elif other == "stairs":
        x, P = ctx.stairs("p", ctx.get("np", 1), "V" if ctx.get("np", 1) == 0 else ctx.get("fp", "D"), True,
                          ctx.get("closed", "left"))
        others, Os = [x] * len(ms), [P] * len(ms)
    else:
        c = ctx.get("c", 1 if other == "bool" else 2)
        x = {"int": int, "float": float, "np.int64": np.int64, "np.float64": np.float64, "bool": bool,
             "nan": lambda v: float("nan"), "sym": lambda v: ctx.val("c", True)}[other](c)
        C = ctx.nanv() if other == "nan" else x if other == "sym" else ctx.lit(c)
        others, Os = [x] * len(ms), [const(C)] * len(ms)
    if op == "neg":
        r = -arr
        want = [M.map(lambda v: -v) for M in Ms]
    elif ctx.get("how") == "method":
        from .common import METHOD

        r = getattr(arr, METHOD[op])(x)
        want = [cmp2(ctx, BIN[op], M, O) for M, O in zip(Ms, Os)]
    elif ctx.get("how") == "rmethod":
        from .common import RMETHOD

        r = getattr(arr, RMETHOD[op])(x)
        want = [cmp2(ctx, BIN[op], O, M) for M, O in zip(Ms, Os)]
    elif ctx.get("how") == "right":
        r = PYOP[op](x, arr)
        want = [cmp2(ctx, BIN[op], O, M) for M, O in zip(Ms, Os)]
    else:
        r = PYOP[op](arr, x)
        want = [cmp2(ctx, BIN[op], M, O) for M, O in zip(Ms, Os)]
    if ctx.get("box", "array") == "array" and other != "oseries":
        ctx.prove(isinstance(r, (sc.StairsArray, pd.Series)), op + ": a StairsArray")
    ctx.prove(len(r) == len(ms), op + ": one element per member")
    for i, (got, W) in enumerate(zip(list(r), want)):
        ctx.prove(isinstance(got, sc.Stairs), op + ": elements are step functions")
        ctx.prove_same_fn(ctx.fn(got, key="e%d" % i), W, "%s element" % op)
    for m, M in zip(ms, Ms):
        ctx.prove_same_fn(ctx.fn(m), M, "member after " + op)


def lengths(ctx):
    """operands of different lengths are not silently truncated"""
    ms, Ms = members(ctx)
    a, b = ctx.sc.StairsArray(ms), ctx.sc.StairsArray(ms[:-1])
    for x, y in ((a, b), (b, a)):
        r, e = ctx.call(lambda: x + y)
        ctx.prove(e is not None, "arrays of different lengths are combined")


def table(ctx):
    """sample / limit tables"""
    sc, pd, np = ctx.sc, ctx.pd, ctx.np
    ms, Ms = members(ctx)
    box, how, q = ctx.get("box", "list"), ctx.get("how", "top"), ctx.get("q")
    col = boxed(ctx, ms, box)
    xs = [ctx.lit(x) if not isinstance(x, str) else ctx.real("x" + x, dom=True) for x in ctx.get("xs")]
    ls = ctx.dom.pts(xs)
    shape = ctx.get("shape", "list")
    if shape == "scalar":
        X, xs, ls = ls[0], xs[:1], ls[:1]
    elif shape == "index":
        X = ctx.dom.index(xs)
    elif shape == "series":
        X = pd.Series(ls)
    elif shape == "array":
        X = np.array(ls)
    elif shape == "tuple":
        X = tuple(ls)
    else:
        X = ls
    target = {"top": sc, "array": col, "accessor": getattr(col, "sc", None)}[how]
    first = (col,) if how == "top" else ()
    if q == "sample":
        df = target.sample(*first, X)
        want = [[M.at(x, ctx.get("closed", "left")) for x in xs] for M in Ms]
    else:
        side = q[6:]
        if side == "default":
            df, side = target.limit(*first, X), "right"
        else:
            df = target.limit(*first, X, side) if ctx.get("pos") else target.limit(*first, X, side=side)
        want = [[M.limit(x, side) for x in xs] for M in Ms]
    ctx.prove(isinstance(df, pd.DataFrame), q + ": a DataFrame")
    ctx.prove(df.shape == (len(ms), len(xs)), q + ": shape")
    if how == "array":
        ctx.prove(list(df.index) == list(range(len(ms))), q + ": index")
    else:
        ctx.prove(list(df.index) == labels(box, len(ms)), q + ": index")
    for c, x in zip(list(df.columns), xs):
        ctx.prove_same(ctx.dom.unpt(c), x, q + ": columns")
    for i in range(len(ms)):
        row = list(df.iloc[i].values)
        for got, w in zip(row, want[i]):
            ctx.prove_same(ctx.num(got), w, q + ": entry")
        # agrees with the member's own answer
        own = ms[i].sample(X) if q == "sample" else ms[i].limit(X, side)
        own = [own] if shape == "scalar" else list(own)
        for got, w in zip(row, own):
            ctx.prove_same(ctx.num(got), ctx.num(w), q + ": entry and the member's own value")


def matrix(ctx):
    """cov / corr matrices"""
    sc, pd, np = ctx.sc, ctx.pd, ctx.np
    ms, Ms = members(ctx)
    op, box, how = ctx.get("op"), ctx.get("box", "list"), ctx.get("how", "top")
    col = boxed(ctx, ms, box)
    a, b = ctx.get("where", [0, 3])
    b = ctx.real("b", dom=True) if isinstance(b, str) else ctx.lit(b)
    a = ctx.lit(a)
    ctx.assume(a < b)
    where = (ctx.dom.pt(a), ctx.dom.pt(b))
    if how == "top":
        m = getattr(sc, op)(col, where=where)
    elif how == "accessor":
        m = getattr(col.sc, op)(where)
    else:
        m = getattr(col, op)(where)
    k = len(ms)
    ctx.prove(m.shape == (k, k), op + ": shape")
    if how != "array":
        ctx.prove(isinstance(m, pd.DataFrame), op + ": a DataFrame")
        ctx.prove(list(m.index) == labels(box, k) and list(m.columns) == labels(box, k), op + ": labels")
        rows = [list(m.iloc[i].values) for i in range(k)]
    else:
        rows = [[m[i, j] for j in range(k)] for i in range(k)]
    for i in range(k):
        for j in range(k):
            want = ctx.num(getattr(ms[i], op)(ms[j], where=where))
            ctx.prove_same(ctx.num(rows[i][j]), want, op + ": entry is the pairwise result")
            ctx.prove_same(ctx.num(rows[i][j]), ctx.num(rows[j][i]), op + ": symmetric")


HARNESSES = {"agg": agg, "elementwise": elementwise, "lengths": lengths, "table": table, "matrix": matrix}
BOUNDS = {
    "quick": "collections of 1..4 members (the same object twice, step-free, undefined anywhere) with 0..2 step points each: "
             "symbolic values, step points symbolic for one or two members with a step each, otherwise fixed (shared and "
             "disjoint); ten container types; five domains; both closed sides. Array operators: 1..3 members against arrays, "
             "lists, Series, a step function or a scalar of any type. Tables: up to 3 query points. Matrices: 1..3 members "
             "with fixed values and a symbolic window end, or symbolic values and a fixed window",
    "thorough": "more shapes: all combinations of container, operation and member sizes up to 2",
}
BOXES = ["list", "tuple", "dict", "ndarray", "array", "series", "oseries", "xseries", "nseries", "dseries"]
OPS = ["sum", "mean", "median", "min", "max", "logical_or", "logical_and"]
PT = [{0: [], 1: [0], 2: [0, 2], 3: [0, 1, 2]}, {0: [], 1: [1], 2: [0, 1], 3: [0, 1, 3]},
      {0: [], 1: [0], 2: [1, 2], 3: [-1, 0, 2]}, {0: [], 1: [2], 2: [0, 2], 3: [0, 1, 4]}]
FM = [["V"], ["D", "V", "VD"], ["VL", "V", "D"], ["DV", "VN", "V"], ["VD", "D"], ["V", "I", "D"]]


def at(ns):
    return {"fghk"[i] + "pts": PT[i][n] for i, n in enumerate(ns)}


def configs(tier):
    big = tier == "thorough"
    k = 0
    shapes = [list(x) for m in (1, 2, 3) for x in product((0, 1, 2), repeat=m) if sum(x) <= 4]
    shapes += [[1, 1, 1, 1], [2, 0, 1, 0], [0, 0, 0, 0]]
    for op in OPS:
        for ns in shapes:
            if op == "median" and sum(ns) > 3 and not big:
                continue
            for form in FM if big else (FM[k % 6], FM[(k + 1) % 6]):
                k += 1
                c = dict(op=op, ns=ns, forms=form, box=BOXES[k % 10], closed="right" if k % 4 == 0 else "left")
                if k % 3 == 0 and len(ns) > 1:
                    c["dup"] = True
                if sum(ns) > 2 or len(ns) > 2 or k % 2:
                    c.update(at(ns))
                yield "agg", c
                if k % 5 == 0:
                    yield "agg", dict(c, dom=("int", "ts", "tz", "td", "dst")[k // 5 % 5], **at(ns))
        for ns in ([1], [1, 1], [0, 1], [0, 0], [1, 0, 1]):
            for box in BOXES:
                yield "agg", dict(op=op, ns=ns, box=box, **at(ns))
            for box in ("array", "series"):
                yield "agg", dict(op=op, ns=ns, box=box, how="method", **at(ns))
            if not op.startswith("log"):
                yield "agg", dict(op=op, ns=ns, box="list", how="agg", **at(ns))
        for dom in ("int", "ts", "tz", "dst", "fix", "td"):
            for ns in ([1], [1, 1], [0, 1], [2, 1]):
                if dom == "fix" and ns != [1, 1]:
                    continue
                yield "agg", dict(op=op, ns=ns, dom=dom, **at(ns))
    # -- operators
    from .common import METHOD, RMETHOD

    arith = [o for o in BIN if o not in ("and", "or", "xor")]
    for op in arith:
        for ns in ([1], [1, 0], [1, 1], [0, 2, 1]):
            for other in ("array", "list", "tuple", "ndarray", "series", "stairs", "int", "float", "np.int64", "np.float64",
                          "nan", "sym", "bool"):
                for how in ("op", "method", "right", "rmethod"):
                    k += 1
                    if how == "rmethod" and op not in RMETHOD:
                        continue
                    if how == "right" and other in ("stairs", "list", "tuple", "ndarray"):
                        continue
                    if how != "op" and len(ns) == 3 and not big:
                        continue
                    if other == "ndarray" and how != "op":
                        continue
                    yield "elementwise", dict(op=op, ns=ns, other=other, how=how, forms=FM[k % 6], np=k % 3 % 2,
                                              ppts=[1][:k % 3 % 2], closed="right" if k % 5 == 0 else "left", **at(ns))
        for box in ("series",):
            for other in ("series", "array", "stairs", "int", "np.float64", "nan"):
                for ns in ([1], [1, 1]):
                    yield "elementwise", dict(op=op, ns=ns, other=other, box=box, ppts=[1], **at(ns))
                    if other in ("int", "np.float64"):
                        yield "elementwise", dict(op=op, ns=ns, other=other, box=box, how="right", **at(ns))
        for dom in ("ts", "tz", "td", "int"):
            for other in ("array", "stairs", "int"):
                yield "elementwise", dict(op=op, ns=[1, 1], other=other, dom=dom, ppts=[1], **at([1, 1]))
    for ns in ([1], [1, 0], [2, 1], [0, 0]):
        for box in ("array", "series"):
            yield "elementwise", dict(op="neg", ns=ns, other="int", box=box, **at(ns))
    for ns in ([1, 1], [0, 1], [1, 0, 1]):
        yield "lengths", dict(ns=ns, **at(ns))
    # -- tables
    for q in ("sample", "limit_left", "limit_right", "limit_default"):
        for ns in ([1], [0], [1, 1], [0, 2], [1, 0, 2]):
            for box in BOXES:
                for shape in ("list", "scalar", "index", "series", "array", "tuple"):
                    k += 1
                    if k % 3 and not big and len(ns) > 1:
                        continue
                    c = dict(q=q, ns=ns, box=box, shape=shape, xs=[["x"], [0, 1], [1, "y"], [2, 0.5, 1]][k % 4],
                             forms=FM[k % 6], closed="right" if k % 3 == 0 else "left", pos=k % 2 == 0)
                    if shape == "scalar":
                        c["xs"] = c["xs"][:1]
                    yield "table", dict(c, **at(ns))
                    if ns == [1, 1] and k % 2:
                        yield "table", dict(c, xs=["x"])
                    if k % 5 == 0:
                        yield "table", dict(c, dom=("ts", "tz", "td", "dst")[k // 5 % 4], **at(ns))
            for shape in ("list", "scalar"):
                yield "table", dict(q=q, ns=ns, box="array", how="array", shape=shape, xs=[0, 1], **at(ns))
                yield "table", dict(q=q, ns=ns, box="series", how="accessor", shape=shape, xs=[1, 3], **at(ns))
    # -- matrices
    VALS = [[[2], [1, 3], [1, None, 2]], [[3], [None, 2], [2, 5, 1]], [[None], [4, 1], [0, 3, 0]]]
    for op in ("cov", "corr"):
        for ns in ([1], [2], [0], [1, 1], [0, 1], [2, 1], [0, 0], [1, 1, 1], [0, 2, 1]):
            for rot in (0, 1, 2):
                vals = {"fgh"[i] + "vals": VALS[(i + rot) % 3][n] for i, n in enumerate(ns)}
                for box, how in (("list", "top"), ("dict", "top"), ("array", "array"), ("series", "accessor"),
                                 ("xseries", "top"), ("dseries", "top")):
                    k += 1
                    c = dict(op=op, ns=ns, box=box, how=how, closed="right" if k % 3 == 0 else "left", **at(ns))
                    yield "matrix", dict(c, **vals)
                    if op == "cov" and box == "list":
                        yield "matrix", c
                        yield "matrix", dict(c, where=[0, "b"], **vals)
                    if box == "list" and len(ns) < 3:
                        yield "matrix", dict(c, dom=("ts", "td", "tz")[rot], **vals)
