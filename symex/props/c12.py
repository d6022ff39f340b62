"""C12: results are in minimal form, so identical() decides equality of functions."""
from ..ctx import Fn, const, merge
from .common import BIN, BINARY, FORMS, UNARY, apply_op, operands

ID = "C12"


def check(ctx, h, H, label):
    """h is minimal (H is what it should denote; only used to report)"""
    K = ctx.fn(h, key=label)
    ctx.prove_minimal(K, label)
    ctx.prove(h.number_of_steps == len(K.pts), label + ": number_of_steps")
    ctx.prove(len(list(h.step_points)) == len(K.pts), label + ": step_points")
    df = h.to_frame()
    ctx.prove(len(df) == len(K.pts) + 1, label + ": rows of to_frame")
    return K


def same_fn(ctx, F, G):
    """F and G are the same function (a condition)"""
    pts = merge(F.pts, G.pts)
    return ctx.And(ctx.same(F.vals[0], G.vals[0]), *[ctx.same(F.right(p), G.right(p)) for p in pts])


def unary(ctx):
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"),
                      minimal=ctx.get("minimal", True), vtype=ctx.get("vtype", "f"))
    h, H = apply_op(ctx, ctx.get("op"), f, F)
    check(ctx, h, H, ctx.get("op"))
    if ctx.get("op2"):
        h2, H2 = apply_op(ctx, ctx.get("op2"), h, H, tag="q")
        check(ctx, h2, H2, "%s then %s" % (ctx.get("op"), ctx.get("op2")))


def binary(ctx):
    (f, F), (g, G) = operands(ctx)
    h, H = apply_op(ctx, ctx.get("op"), f, F, g, G)
    check(ctx, h, H, ctx.get("op"))
    if ctx.get("op2"):
        h2, H2 = apply_op(ctx, ctx.get("op2"), h, H, tag="q")
        check(ctx, h2, H2, "%s then %s" % (ctx.get("op"), ctx.get("op2")))


def built(ctx):
    """construction routes"""
    sc, pd = ctx.sc, ctx.pd
    how, n, closed = ctx.get("how"), ctx.get("n"), ctx.get("closed", "left")
    if how == "from_values":
        s, F = ctx.stairs("f", n, "V", True, closed, minimal=False)
    elif how in ("scalar", "vector", "ctor", "frame"):
        s = sc.Stairs(initial_value=ctx.val("i0", False), closed=closed)
        starts, ends, vals = [], [], []
        for i in range(n):
            a, b = ctx.real("s%d" % i, dom=True), ctx.real("t%d" % i, dom=True)
            ctx.assume(a < b)
            starts.append(ctx.dom.pt(a))
            ends.append(ctx.dom.pt(b))
            vals.append(ctx.val("v%d" % i, False))
        if how == "scalar":
            for a, b, v in zip(starts, ends, vals):
                s.layer(a, b, v)
        elif how == "vector":
            s.layer(starts, ends, vals)
        elif how == "ctor":
            s = sc.Stairs(start=starts, end=ends, value=vals, initial_value=ctx.val("i0", False), closed=closed)
        else:
            df = pd.DataFrame({"start": starts, "end": ends, "value": vals})
            s = sc.Stairs(df, "start", "end", "value", initial_value=ctx.val("i0", False), closed=closed)
    check(ctx, s, None, how)


def identical(ctx):
    """identical() on arbitrary pairs, both ways"""
    (f, F), (g, G) = operands(ctx)
    want = same_fn(ctx, F, G)
    if F.pts and G.pts and f.closed != g.closed:
        want = ctx.And(False)
    a, b = bool(f.identical(g)), bool(g.identical(f))
    ctx.observe("ident", [a, b])
    ctx.prove(ctx.Iff(a, want), "identical(f, g)")
    ctx.prove(ctx.Iff(b, want), "identical(g, f)")
    ctx.prove(bool(f.identical(f)) and bool(f.identical(f.copy())), "identical is reflexive")
    ctx.prove(ctx.Iff(bool(ctx.sc.Stairs.identical(f, g)), want), "Stairs.identical")


def ident_scalar(ctx):
    f, F = ctx.stairs("f", ctx.get("n"), ctx.get("form", "V"), ctx.get("nan", True), ctx.get("closed", "left"))
    c = ctx.integer("c", np=ctx.get("np", False)) if ctx.get("c") == "int" else ctx.val("c", True, ctx.get("np", False))
    want = same_fn(ctx, F, const(c))
    ctx.prove(ctx.Iff(bool(f.identical(c)), want), "identical to a scalar")
    ctx.prove(ctx.Iff(bool(f), same_fn(ctx, F, const(1))), "bool(f)")


def ident_op(ctx):
    """the result of an operation against a freshly built function, both ways"""
    if ctx.get("ng") is None:
        f, F = ctx.stairs("f", ctx.get("nf"), ctx.get("ff", "V"), True, ctx.get("closed", "left"))
        h, H = apply_op(ctx, ctx.get("op"), f, F)
    else:
        (f, F), (g, G) = operands(ctx)
        h, H = apply_op(ctx, ctx.get("op"), f, F, g, G)
    K = ctx.fn(h)
    k, E = ctx.stairs("k", ctx.get("nk", 1), ctx.get("fk", "V"), True, ctx.get("closed", "left"))
    want = same_fn(ctx, K, E)
    ctx.prove(ctx.Iff(bool(h.identical(k)), want), "identical(result, other)")
    ctx.prove(ctx.Iff(bool(k.identical(h)), want), "identical(other, result)")
    ctx.prove(ctx.Iff(bool(h), same_fn(ctx, K, const(1))), "bool(result)")
    ctx.prove(bool(h.identical(h.copy())), "identical to its copy")


IDENTITIES = {
    "add_comm": lambda s, f, g, h: (f + g, g + f),
    "mul_comm": lambda s, f, g, h: (f * g, g * f),
    "and_comm": lambda s, f, g, h: (f & g, g & f),
    "or_comm": lambda s, f, g, h: (f | g, g | f),
    "xor_comm": lambda s, f, g, h: (f ^ g, g ^ f),
    "eq_comm": lambda s, f, g, h: (f == g, g == f),
    "ne_not_eq": lambda s, f, g, h: (f != g, ~(f == g)),
    "lt_gt": lambda s, f, g, h: (f < g, g > f),
    "le_ge": lambda s, f, g, h: (f <= g, g >= f),
    "le_not_gt": lambda s, f, g, h: (f <= g, ~(f > g)),
    "ge_lt_eq": lambda s, f, g, h: (f >= g, (f > g) | (f == g)),
    "demorgan_and": lambda s, f, g, h: (~(f & g), ~f | ~g),
    "demorgan_or": lambda s, f, g, h: (~(f | g), ~f & ~g),
    "xor_def": lambda s, f, g, h: (f ^ g, (f | g) & ~(f & g)),
    "sub_add_neg": lambda s, f, g, h: (f - g, f + (-g)),
    "sub_anti": lambda s, f, g, h: (f - g, -(g - f)),
    "mask_where": lambda s, f, g, h: (f.mask(g), f.where(~g)),
    "where_mask": lambda s, f, g, h: (f.where(g), f.mask(~g)),
    "where_bool": lambda s, f, g, h: (f.where(g), f.where(g.make_boolean())),
    "mask_idem": lambda s, f, g, h: (f.mask(g), f.mask(g).mask(g)),
    "sum_add": lambda s, f, g, h: (s.sum([f, g]), f + g),
    "min_max": lambda s, f, g, h: (s.min([f, g]) + s.max([f, g]), f + g),
    "agg_or": lambda s, f, g, h: (s.logical_or([f, g]), f | g),
    "agg_and": lambda s, f, g, h: (s.logical_and([f, g]), f & g),
    "sub_back": lambda s, f, g, h: ((f + g) - g, f.mask(g.isna())),
    "div_back": lambda s, f, g, h: ((f / g) * g, f.where(g)),
    "add_assoc": lambda s, f, g, h: ((f + g) + h, f + (g + h)),
    "mul_assoc": lambda s, f, g, h: ((f * g) * h, f * (g * h)),
    "distrib": lambda s, f, g, h: (f * (g + h), f * g + f * h),
    "and_assoc": lambda s, f, g, h: ((f & g) & h, f & (g & h)),
    "or_assoc": lambda s, f, g, h: ((f | g) | h, f | (g | h)),
    "and_or": lambda s, f, g, h: (f & (g | h), (f & g) | (f & h)),
    "sum3": lambda s, f, g, h: (s.sum([f, g, h]), f + g + h),
    # one function
    "self_sub": lambda s, f, g, h: (f - f, s.Stairs(initial_value=0, closed=f.closed).mask(f.isna())),
    "self_sub0": lambda s, f, g, h: (f - f, f * 0),
    "self_eq": lambda s, f, g, h: (f == f, s.Stairs(initial_value=1, closed=f.closed).mask(f.isna())),
    "not_not": lambda s, f, g, h: (~~f, f.make_boolean()),
    "neg_neg": lambda s, f, g, h: (-(-f), f),
    "double": lambda s, f, g, h: (f + f, 2 * f),
    "mul_zero": lambda s, f, g, h: (0 * f, f - f),
    "add_zero": lambda s, f, g, h: (f + 0, f),
    "mul_one": lambda s, f, g, h: (1 * f, f),
    "ne0": lambda s, f, g, h: (f != 0, f.make_boolean()),
    "notna": lambda s, f, g, h: (f.notna(), ~f.isna()),
    "isna_isna": lambda s, f, g, h: (f.isna().isna(), s.Stairs(initial_value=0)),
    "fillna_where": lambda s, f, g, h: (f.fillna(7).where(f.notna()), f),
    "copy": lambda s, f, g, h: (f.copy(), f),
    "clip_all": lambda s, f, g, h: (f.clip(), f),
}
N3 = ("add_assoc", "mul_assoc", "distrib", "and_assoc", "or_assoc", "and_or", "sum3")
N1 = tuple(list(IDENTITIES)[list(IDENTITIES).index("self_sub"):])
N2 = tuple(k for k in IDENTITIES if k not in N3 and k not in N1)


def identities(ctx):
    sc, name = ctx.sc, ctx.get("id")
    closed = ctx.get("closed", "left")
    ns, forms = ctx.get("ns"), ctx.get("forms")
    ops = [ctx.stairs("fgh"[i], n, forms[i], ctx.get("nan", True), closed)[0] for i, n in enumerate(ns)]
    if ctx.get("scalar"):  # the last operand is a plain number
        ops[-1] = ctx.val("c", True, np=False)
    ops += [None] * (3 - len(ops))
    a, b = IDENTITIES[name](sc, *ops)
    ctx.observe("ab", [[ctx.fn(a).pts, ctx.fn(a).vals], [ctx.fn(b).pts, ctx.fn(b).vals]])
    ctx.prove(bool(a.identical(b)), name + " up to identical")
    ctx.prove(bool(b.identical(a)), name + " up to identical, reversed")


HARNESSES = {"unary": unary, "binary": binary, "built": built, "identical": identical, "ident_scalar": ident_scalar,
             "ident_op": ident_op, "identities": identities}
BOUNDS = {
    "quick": "every catalogue operation on functions with 0..2 step points (all internal forms for 0..1), two-operation "
             "compositions on 1 step point, identical() on all pairs with 0..2 step points, identities over pairs and "
             "triples with 0..1 step points each",
    "thorough": "0..3 step points, all forms; compositions on 2 step points; identities with 0..2 step points",
}


def configs(tier):
    big = tier == "thorough"
    for op in UNARY:
        for n in (0, 1, 2) + ((3,) if big else ()):
            for form in FORMS if n else ("V",):
                if n >= 2 and form not in ("V", "D") and not big:
                    continue
                if n >= 3 and (form not in ("V", "D") or op in ("shift", "diff", "layer", "layer_v")):
                    continue
                yield "unary", dict(op=op, n=n, form=form)
                if n < 2:
                    yield "unary", dict(op=op, n=n, form=form, closed="right")
        yield "unary", dict(op=op, n=1, vtype="i", nan=False)
        yield "unary", dict(op=op, n=2, minimal=False)
        for ik in ("i", "ni"):
            yield "unary", dict(op=op, n=1, ik=ik)
    for op in BINARY:
        sizes = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1)] + ([(0, 2), (2, 0), (2, 2)] if big else [])
        for nf, ng in sizes:
            for a in FORMS if nf else ("V",):
                for b in FORMS if ng else ("V",):
                    if nf and ng and not big and (a, b) not in (("V", "V"), ("D", "D"), ("V", "D"), ("VD", "VN")):
                        continue
                    if nf + ng >= 3 and (a, b) not in (("V", "V"), ("D", "D")):
                        continue
                    yield "binary", dict(op=op, nf=nf, ng=ng, ff=a, fg=b)
        for nf, ng in ((1, 1), (1, 0), (0, 1)):
            yield "binary", dict(op=op, nf=nf, ng=ng, ff="V", fg="V", closed="right")
    firsts = ["neg", "mul_c", "c_div", "clip", "mask_t", "fillna_c", "layer", "add_c", "lt_c", "invert", "ffill"]
    seconds = ["add_c", "mul_c", "eq_c", "c_div", "isna", "clip", "fillna_c", "layer", "make_boolean", "copy"]
    for a in firsts:
        for b in seconds:
            for form in ("V", "D"):
                yield "unary", dict(op=a, op2=b, n=1, form=form)
                if big:
                    yield "unary", dict(op=a, op2=b, n=2, form=form)
    for a in BINARY:
        for b in ("mul_c", "layer", "isna") if not big else seconds:
            if b != "layer" or (big and a != "div") or a in ("add", "lt", "and", "mask", "agg_max"):
                yield "binary", dict(op=a, op2=b, nf=1, ng=1, ff="V", fg="V")
            yield "binary", dict(op=a, op2=b, nf=1, ng=0, ff="V", fg="V")
            yield "binary", dict(op=a, op2=b, nf=0, ng=1, ff="V", fg="D")
    for how in ("from_values", "scalar", "vector", "ctor", "frame"):
        for n in (1, 2):
            yield "built", dict(how=how, n=n)
            yield "built", dict(how=how, n=n, closed="right")
        yield "built", dict(how=how, n=1, dom="ts")
    yield "built", dict(how="from_values", n=3)
    # identical
    for nf, ng in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2)):
        for a in FORMS if nf else ("V",):
            for b in FORMS if ng else ("V",):
                if nf + ng >= 3 and (a, b) not in (("V", "V"), ("V", "D"), ("D", "V"), ("D", "D"), ("VD", "VN"),
                                                   ("V", "VL"), ("DV", "V")):
                    continue
                yield "identical", dict(nf=nf, ng=ng, ff=a, fg=b)
        for c, d in (("right", "right"), ("left", "right"), ("right", "left")):
            yield "identical", dict(nf=nf, ng=ng, ff="V", fg="V", closed=c, closed_g=d)
            yield "identical", dict(nf=nf, ng=ng, ff="V" if not nf else "D", fg="V", closed=c, closed_g=d)
    for dom in ("int", "ts", "tz", "dst", "td"):
        for nf, ng in ((0, 1), (1, 1)):
            yield "identical", dict(nf=nf, ng=ng, ff="V", fg="V", dom=dom)
            yield "identical", dict(nf=nf, ng=ng, ff="V" if not nf else "D", fg="V", dom=dom)
        for op in ("add", "lt", "fillna") if big or dom == "ts" else ("add", "mask"):
            yield "ident_op", dict(op=op, nf=1, ng=1, ff="V", fg="V", dom=dom)
    for n in (0, 1, 2):
        for form in FORMS if n else ("V",):
            for c in ("f", "int"):
                for np in (False, True):
                    yield "ident_scalar", dict(n=n, form=form, c=c, np=np)
    for op in BINARY:
        for nf, ng in ((1, 1), (0, 1), (1, 0)):
            for nk in (0, 1):
                for fk in ("V", "D") if nk else ("V",):
                    yield "ident_op", dict(op=op, nf=nf, ng=ng, ff="V", fg="V", nk=nk, fk=fk)
    for op in UNARY:
        for n in (0, 1, 2):
            for nk in (0, 1):
                if nk and n == 2 and not big:
                    continue
                yield "ident_op", dict(op=op, nf=n, ff="V", nk=nk, fk="V")
                if n == 1:
                    yield "ident_op", dict(op=op, nf=n, ff="D", nk=nk, fk="D" if nk else "V")
    for name in IDENTITIES:
        k = 3 if name in N3 else 1 if name in N1 else 2
        top = 1 if k == 3 else 2 if k == 1 or big else 1
        from itertools import product
        for ns in product(range(top + 1), repeat=k):
            if k == 3 and sum(ns) == 3 and not big and name not in ("add_assoc", "distrib", "and_or"):
                continue
            fs = [["V"] * k, ["D"] * k, ["VD"] + ["D"] * (k - 1)]
            if k == 2:
                fs += [["D", "V"], ["VL", "VN"]]
            seen = set()
            for forms in fs:
                forms = tuple(f if n else "V" for f, n in zip(forms, ns))
                if forms in seen:
                    continue
                seen.add(forms)
                if sum(ns) >= 3 and forms[0] not in ("V", "D"):
                    continue
                yield "identities", dict(id=name, ns=list(ns), forms=list(forms))
                if sum(ns) == 1 and k < 3:
                    yield "identities", dict(id=name, ns=list(ns), forms=list(forms), closed="right")
        if k == 2:
            for n in (0, 1):
                if name not in ("mask_where", "where_mask", "where_bool", "mask_idem", "sum_add", "min_max", "agg_or",
                                "agg_and", "sub_back", "div_back", "demorgan_and", "demorgan_or", "xor_def"):
                    yield "identities", dict(id=name, ns=[n, 0], forms=["V", "V"], scalar=True)
