"""shared harness helpers: operands, and the catalogue of operations with their pointwise meaning"""
from ..ctx import Fn, combine, const, restrict

FORMS = ("V", "VD", "VL", "VN", "D", "DV")


def operands(ctx):
    """two operands described by the configuration"""
    c = ctx.get("closed", "left")
    f = ctx.stairs("f", ctx.get("nf"), ctx.get("ff", "V"), ctx.get("nan", True), c)
    g = ctx.stairs("g", ctx.get("ng"), ctx.get("fg", "V"), ctx.get("nan_g", ctx.get("nan", True)),
                   ctx.get("closed_g", c))
    return f, g


# ---------------------------------------------------------------- pointwise meanings
def spec_fill(ctx, a, b):
    return ctx.ite(ctx.isnan(a), b, a)


def spec_mask(ctx, a, b):
    return ctx.ite(ctx.And(ctx.Not(ctx.isnan(b)), b == 0), a, ctx.nanv())


def spec_where(ctx, a, b):
    return ctx.ite(ctx.And(ctx.Not(ctx.isnan(b)), b != 0), a, ctx.nanv())


def both(ctx, a, b, v):
    return ctx.ite(ctx.Or(ctx.isnan(a), ctx.isnan(b)), ctx.nanv(), v)


BIN = {
    "add": lambda ctx, a, b: a + b,
    "sub": lambda ctx, a, b: a - b,
    "mul": lambda ctx, a, b: a * b,
    "div": lambda ctx, a, b: ctx.div(a, b),
    "lt": lambda ctx, a, b: ctx.ind(a < b, a, b),
    "le": lambda ctx, a, b: ctx.ind(a <= b, a, b),
    "gt": lambda ctx, a, b: ctx.ind(a > b, a, b),
    "ge": lambda ctx, a, b: ctx.ind(a >= b, a, b),
    "eq": lambda ctx, a, b: ctx.ind(a == b, a, b),
    "ne": lambda ctx, a, b: ctx.ind(ctx.Not(a == b), a, b),
    "and": lambda ctx, a, b: ctx.ind(ctx.And(ctx.Not(a == 0), ctx.Not(b == 0)), a, b),
    "or": lambda ctx, a, b: ctx.ind(ctx.Or(ctx.Not(a == 0), ctx.Not(b == 0)), a, b),
    "xor": lambda ctx, a, b: ctx.ind(ctx.Not(ctx.Iff(a == 0, b == 0)), a, b),
}
PYOP = {
    "add": lambda f, g: f + g, "sub": lambda f, g: f - g, "mul": lambda f, g: f * g, "div": lambda f, g: f / g,
    "lt": lambda f, g: f < g, "le": lambda f, g: f <= g, "gt": lambda f, g: f > g, "ge": lambda f, g: f >= g,
    "eq": lambda f, g: f == g, "ne": lambda f, g: f != g, "and": lambda f, g: f & g, "or": lambda f, g: f | g,
    "xor": lambda f, g: f ^ g,
}
METHOD = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide", "lt": "lt", "le": "le", "gt": "gt",
          "ge": "ge", "eq": "eq", "ne": "ne", "and": "logical_and", "or": "logical_or", "xor": "logical_xor"}
RMETHOD = {"add": "radd", "sub": "rsubtract", "mul": "rmultiply", "div": "rdivide", "and": "logical_rand",
           "or": "logical_ror", "xor": "logical_rxor"}

AGG = {
    "sum": lambda ctx, a, b: a + b,
    "mean": lambda ctx, a, b: (a + b) / 2,
    "median": lambda ctx, a, b: (a + b) / 2,
    "min": lambda ctx, a, b: both(ctx, a, b, ctx.ite(a < b, a, b)),
    "max": lambda ctx, a, b: both(ctx, a, b, ctx.ite(a < b, b, a)),
    "logical_or": BIN["or"],
    "logical_and": BIN["and"],
}


def fold_ffill(ctx, F):
    out = [F.vals[0]]
    for v in F.vals[1:]:
        out.append(spec_fill(ctx, v, out[-1]))
    return Fn(F.pts, out)


def fold_bfill(ctx, F):
    out = [F.vals[-1]]
    for v in reversed(F.vals[:-1]):
        out.append(spec_fill(ctx, v, out[-1]))
    return Fn(F.pts, out[::-1])


def interval(a, b):
    if a is None and b is None:
        return const(1)
    if a is None:
        return Fn([b], [1, 0])
    if b is None:
        return Fn([a], [0, 1])
    return Fn([a, b], [0, 1, 0])


def cmp2(ctx, spec, F, G):
    return combine(lambda a, b: spec(ctx, a, b), F, G)


def window(ctx, tag, lo=True, hi=True):
    """(a, b) labels and coordinates with a < b; None where unbounded"""
    if ctx.get("owin"):  # a fixed window
        a, b = (ctx.lit(x) if on else None for x, on in zip(ctx.get("owin"), (lo, hi)))
        return (ctx.dom.pt(a) if lo else None, ctx.dom.pt(b) if hi else None), (a, b)
    a = ctx.real(tag + "a", dom=True) if lo else None
    b = ctx.real(tag + "b", dom=True) if hi else None
    if lo and hi:
        ctx.assume(a < b)
    return (ctx.dom.pt(a) if lo else None, ctx.dom.pt(b) if hi else None), (a, b)


# ------------------------------------------------------------------------ catalogue
UNARY = ["neg", "invert", "make_boolean", "isna", "notna", "ffill", "bfill", "copy", "shift", "diff",
         "clip", "clip_lo", "clip_hi", "where_t", "where_t_lo", "where_t_hi", "mask_t", "mask_t_lo", "mask_t_hi",
         "fillna_c", "layer", "layer_v"] \
    + ["%s_c" % o for o in BIN] + ["c_%s" % o for o in BIN]
BINARY = list(BIN) + ["mask", "where", "fillna"] + ["agg_" + a for a in AGG]


def apply_op(ctx, op, f, F, g=None, G=None, tag="o", np=False):
    """-> (result of the real operation, its pointwise meaning)"""
    sc = ctx.sc
    if op in BIN:
        return PYOP[op](f, g), cmp2(ctx, BIN[op], F, G)
    if op == "mask":
        return f.mask(g), cmp2(ctx, spec_mask, F, G)
    if op == "where":
        return f.where(g), cmp2(ctx, spec_where, F, G)
    if op == "fillna":
        return f.fillna(g), cmp2(ctx, spec_fill, F, G)
    if op.startswith("agg_"):
        a = op[4:]
        return getattr(sc, a)([f, g]), cmp2(ctx, AGG[a], F, G)
    if op == "neg":
        return -f, F.map(lambda v: -v)
    if op == "invert":
        return ~f, F.map(lambda v: ctx.ind(v == 0, v))
    if op == "make_boolean":
        return f.make_boolean(), F.map(lambda v: ctx.ind(ctx.Not(v == 0), v))
    if op == "isna":
        return f.isna(), F.map(lambda v: ctx.ind(ctx.isnan(v)))
    if op == "notna":
        return f.notna(), F.map(lambda v: ctx.ind(ctx.Not(ctx.isnan(v))))
    if op == "ffill":
        return f.fillna("ffill"), fold_ffill(ctx, F)
    if op == "bfill":
        return f.fillna("bfill"), fold_bfill(ctx, F)
    if op == "copy":
        return f.copy(), F
    if op in ("shift", "diff"):
        d = ctx.lit(ctx.get("owin")[1]) if ctx.get("owin") else ctx.real(tag + "d", dom=True)
        D = F.shift(d)
        if op == "shift":
            return f.shift(ctx.dom.dur(d)), D
        return f.diff(ctx.dom.dur(d)), combine(lambda a, b: a - b, F, D)
    if op.startswith("clip"):
        (a, b), (xa, xb) = window(ctx, tag, op != "clip_hi", op != "clip_lo")
        kw = {}
        if a is not None:
            kw["lower"] = a
        if b is not None:
            kw["upper"] = b
        return f.clip(**kw), restrict(F, xa, xb, ctx.nanv())
    if op.startswith("where_t") or op.startswith("mask_t"):
        (a, b), (xa, xb) = window(ctx, tag, not op.endswith("_hi"), not op.endswith("_lo"))
        if op[0] == "w":
            return f.where((a, b)), restrict(F, xa, xb, ctx.nanv())
        return f.mask((a, b)), cmp2(ctx, spec_mask, F, interval(xa, xb))
    if op == "fillna_c":
        c = ctx.val(tag + "c", False, np=np)
        return f.fillna(c), F.map(lambda v: spec_fill(ctx, v, c))
    if op in ("layer", "layer_v"):
        (a, b), (xa, xb) = window(ctx, tag)
        v = ctx.val(tag + "v", False, np=np)
        h = f.copy()
        if op == "layer":
            h.layer(a, b, v)
        else:
            h.layer([a], [b], [v])
        return h, combine(lambda p, q: p + q * v, F, interval(xa, xb))
    if op.endswith("_c") and op[:-2] in BIN:
        c = ctx.val(tag + "c", True, np=np)
        return PYOP[op[:-2]](f, c), cmp2(ctx, BIN[op[:-2]], F, const(c))
    if op.startswith("c_"):
        c = ctx.val(tag + "c", True, np=np)
        return PYOP[op[2:]](c, f), cmp2(ctx, BIN[op[2:]], const(c), F)
    raise ValueError(op)
