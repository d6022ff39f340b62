"""C16: results depend only on the functions denoted, and compose without errors."""
from itertools import count

from ..ctx import Fn
from . import c13
from .c13 import changes, same_changes
from .common import BINARY, UNARY, apply_op

ID = "C16"

READS = {
    "": lambda ctx, s: None,
    "c": lambda ctx, s: s.step_changes,
    "v": lambda ctx, s: s.step_values,
    "f": lambda ctx, s: s.to_frame(),
    "vc": lambda ctx, s: (s.step_values, s.step_changes),
    "cv": lambda ctx, s: (s.step_changes, s.step_values),
    "s": lambda ctx, s: (ctx.call(s.max), ctx.call(s.value_sums), ctx.call(s.integral), bool(s)),
    "i": lambda ctx, s: s.identical(s),
    "l": lambda ctx, s: s.limit([ctx.dom.pt(0)], "left"),
    "n": lambda ctx, s: s.number_of_steps,
}


def leaf(ctx, name, i):
    n, form = ctx.get("ns")[i], ctx.get("forms")[i]
    closed = ctx.get("closed", "left")
    if form == "I":  # integer values, python or numpy
        return ctx.stairs(name, n, "V", False, closed, vtype="i")
    if form == "C":
        s, S = ctx.stairs(name, n, "V", True, closed)
        return s.copy(), S
    if form == "X":  # result of an earlier operation
        s, S = ctx.stairs(name, n, "V", True, closed)
        return (s + 1) - 1, S
    return ctx.stairs(name, n, form if n else "V", True, closed)


def finish(ctx, h, H, label):
    """the right function, whichever view it is read through"""
    ctx.call(READS[ctx.get("last", "")], ctx, h)
    K = ctx.fn(h, key="result")
    ctx.prove_same_fn(K, H, label)
    got = changes(ctx, h)
    if K.pts:
        fresh = ctx.sc.Stairs.from_values(
            initial_value=h.initial_value, closed=h.closed,
            values=ctx.pd.Series(list(h.step_values.values), index=h.step_values.index))
        same_changes(ctx, got, changes(ctx, fresh), label + ": step changes")
    df = h.to_frame()
    ctx.prove(len(df) == len(K.pts) + 1, label + ": to_frame")
    for a, b in zip(list(df["value"].values), K.vals):
        ctx.prove_same(ctx.num(a), b, label + ": to_frame")


def program(ctx):
    """evaluate a small expression tree, reading between the steps"""
    steps = ctx.get("prog")
    reads = ctx.get("reads", [""] * (len(steps) + 2))
    names = "fgh"
    env = [leaf(ctx, names[i], i) for i in range(len(ctx.get("ns")))]
    for i, (s, _) in enumerate(env):
        READS[reads[i % len(reads)]](ctx, s)
    label = []
    for k, (op, args) in enumerate(steps):
        f, F = env[args[0]]
        g, G = env[args[1]] if len(args) > 1 else (None, None)
        label.append("%s%s" % (op, tuple(args)))
        if op in c13.EXTRA:
            h, H = c13.run(ctx, op, f, F, g, G, "o%d" % k)
        else:
            h, H = apply_op(ctx, op, f, F, g, G, tag="o%d" % k, np=ctx.get("np", False))
        READS[reads[(k + len(ctx.get("ns"))) % len(reads)]](ctx, h)
        env.append((h, H))
    finish(ctx, *env[-1], " ".join(label))


def scalars(ctx):
    """the Python / numpy type of a scalar does not matter"""
    f, F = leaf(ctx, "f", 0)
    op, t = ctx.get("op"), ctx.get("t")
    val = ctx.get("c")
    np = ctx.np
    conv = {"int": int, "float": float, "np.int64": np.int64, "np.float64": np.float64, "bool": bool,
            "np.bool_": np.bool_, "0d": lambda v: np.array(float(v))[()], "np.int32": getattr(np, "int32", np.int64)}[t]
    c = conv(val) if val is not None else float("nan") if t == "float" else np.float64("nan")
    from .common import BIN, PYOP, cmp2, spec_fill
    from ..ctx import const

    C = const(ctx.lit(val) if val is not None else ctx.nanv())
    if op == "fillna":
        finish(ctx, f.fillna(c), F.map(lambda v: spec_fill(ctx, v, C.vals[0])), "fillna(%s)" % t)
    elif op == "layer":
        f.layer(ctx.dom.pt(0), ctx.dom.pt(1), c)
        from ..ctx import combine

        finish(ctx, f, combine(lambda p, q: p + q * val, F, Fn([0, 1], [0, 1, 0])), "layer(%s)" % t)
    elif op in ("layer_v", "layer_mix"):
        from ..ctx import combine

        g = ctx.sc.Stairs(closed=f.closed)
        cs = [c, c] if op == "layer_v" else [c, 2]
        if ctx.get("box") == "series":
            cs = ctx.pd.Series(cs)
        elif ctx.get("box") == "array":
            cs = np.array(cs)
        g.layer([ctx.dom.pt(0), ctx.dom.pt(1)], [ctx.dom.pt(1), ctx.dom.pt(2)], cs)
        finish(ctx, g + f, combine(lambda p, q: p + q, Fn([0, 1, 2], [0, val, val if op == "layer_v" else 2, 0]), F),
               "layering %s" % t)
    elif op == "from_values":
        other = ctx.get("other")
        ser = ctx.pd.Series([c, conv(other)], index=ctx.dom.index([0, 1]))
        g = ctx.sc.Stairs.from_values(initial_value=conv(other), values=ser, closed=f.closed)
        G = Fn([0, 1], [other, val, other])
        then = ctx.get("then")
        if then == "neg":
            finish(ctx, -g, G.map(lambda v: -v), "- from_values %s" % t)
        elif then == "sum":
            from ..ctx import combine

            finish(ctx, ctx.sc.sum([g, f, g]), combine(lambda p, q: 2 * p + q, G, F), "sum with from_values %s" % t)
        elif then == "layer":
            from ..ctx import combine

            g.layer(ctx.dom.pt(0), ctx.dom.pt(1), 2)
            finish(ctx, g, combine(lambda p, q: p + 2 * q, G, Fn([0, 1], [0, 1, 0])), "layer on from_values %s" % t)
        elif then == "clip":
            finish(ctx, g.clip(ctx.dom.pt(0), ctx.dom.pt(1)) + g.clip(ctx.dom.pt(-1)).fillna(conv(other)),
                   Fn([0, 1], [ctx.nanv(), val + val, ctx.nanv()]), "clip of from_values %s" % t)
        else:
            finish(ctx, PYOP[then](g, f), cmp2(ctx, BIN[then], G, F), "from_values %s %s f" % (t, then))
    elif op == "init":
        s = ctx.sc.Stairs(initial_value=c)
        from ..ctx import combine

        finish(ctx, s + f, combine(lambda p, q: p + q, C, F), "initial_value %s" % t)
    elif op.startswith("r"):
        finish(ctx, PYOP[op[1:]](c, f), cmp2(ctx, BIN[op[1:]], C, F), "%s %s f" % (t, op[1:]))
    else:
        finish(ctx, PYOP[op](f, c), cmp2(ctx, BIN[op], F, C), "f %s %s" % (op, t))


HARNESSES = {"program": program, "scalars": scalars}
BOUNDS = {
    "quick": "all two-operation programs over the catalogue (unary-unary, binary-unary, unary-binary, binary-binary) on "
             "leaves with 0..1 step points at fixed places and symbolic, possibly undefined values, leaf construction and "
             "interposed reads rotating through all variants; selected three-operation programs; scalar flavours of every "
             "operator",
    "thorough": "every two-operation program in six leaf / read variants, 2-step leaves, all three-operation chains over "
                "fifteen operations",
}
FORMS = ["V", "D", "VD", "DV", "VL", "VN", "S", "I", "C", "X"]
RD = [["", "", "", ""], ["c", "", "c", ""], ["", "v", "", "c"], ["vc", "cv", "s", "f"], ["s", "c", "v", "i"],
      ["f", "l", "c", "n"], ["c", "c", "c", "c"], ["v", "v", "v", "v"]]
WIN = ([0, 1], [-1, 0.5], [0.5, 3], [-2, -1])
UN = UNARY + ["clip_none", "mask_none", "agg1_sum", "agg1_logical_or", "fillna_self", "array_neg"]
KEY = ["neg", "invert", "isna", "ffill", "shift", "clip", "mask_t", "fillna_c", "layer", "layer_v", "add_c", "c_sub",
       "mul_c", "c_div", "lt_c", "c_ge", "and_c", "c_xor", "where_t_lo", "agg1_logical_or"]


def configs(tier):
    big = tier == "thorough"
    tick = count()

    def var(k, size=None, easy=False):
        """rotating leaf forms, reads, windows, number of steps"""
        t = next(tick)
        forms = [FORMS[(t * 7 + 3 * i) % len(FORMS)] for i in range(k)]
        if easy:  # products of products: no further symbolic summand or product
            forms = [{"VL": "V", "I": "VD", "X": "D"}.get(x, x) for x in forms]
        ns = [1 if (t + i) % 5 else 0 for i in range(k)] if size is None else size
        d = dict(ns=ns, forms=forms, reads=RD[(t * 3) % len(RD)], owin=WIN[(t * 5 + t // 7) % len(WIN)],
                 last=("", "c", "v")[t % 3], np=bool(t % 2))
        for i, n in enumerate(ns):
            d["fgh"[i] + "pts"] = ([0, 1], [0.5, 2], [1, 4])[i if t % 4 else 0][:n]
        if t % 11 == 0:
            d["closed"] = "right"
        return d

    reps = 6 if big else 1
    hard = lambda *ops: sum(o in ("mul", "div", "mul_c", "div_c", "c_mul", "c_div") for o in ops) > 1  # noqa: E731
    for a in UN:
        for b in UN:
            for r in range(reps if big else 2):
                yield "program", dict(var(1, None, hard(a, b)), prog=[[a, [0]], [b, [1]]])
    for a in BINARY:
        for b in UN:
            for r in range(reps):
                yield "program", dict(var(2, None, hard(a, b)), prog=[[a, [0, 1]], [b, [2]]])
                yield "program", dict(var(2, None, hard(a, b)), prog=[[b, [0]], [a, [2, 1]]])
                if a not in ("add", "mul") and not a.startswith("agg"):
                    yield "program", dict(var(2, None, hard(a, b)), prog=[[b, [0]], [a, [1, 2]]])
                if r % 2 == 0 and (big or a in ("sub", "lt", "mask", "fillna", "and")):
                    yield "program", dict(var(1, None, hard(a, b)), prog=[[b, [0]], [a, [0, 1]]])
    for a in BINARY:
        for b in BINARY:
            for r in range(reps):
                yield "program", dict(var(2, None, hard(a, b)), prog=[[a, [0, 1]], [b, [2, 0]]])
                yield "program", dict(var(2, None, hard(a, b)), prog=[[a, [0, 1]], [b, [1, 2]]])
                if big and not hard(a, b):
                    yield "program", dict(var(3), prog=[[a, [0, 1]], [b, [3, 2]]])
    for a in KEY:
        for b in KEY:
            for c in KEY:
                if not big and (KEY.index(a) + 3 * KEY.index(b) + 7 * KEY.index(c)) % 8:
                    continue
                if hard(a, b, c):
                    continue
                yield "program", dict(var(1, [1]), prog=[[a, [0]], [b, [1]], [c, [2]]])
    if big:
        for a in UN:
            for b in UN:
                if not hard(a, b):
                    yield "program", dict(var(1, [2]), prog=[[a, [0]], [b, [1]]])
        for a in BINARY:
            for b in UN:
                if not hard(a, b):
                    yield "program", dict(var(2, [2, 1]), prog=[[a, [0, 1]], [b, [2]]])
    from .common import BIN

    for op in list(BIN) + ["r" + o for o in BIN] + ["fillna", "layer", "init"]:
        for t in ("int", "float", "np.int64", "np.float64", "bool", "0d", "np.int32", "nan", "np.nan"):
            for val in (0, 1, 3):
                if (t in ("bool", "np.bool_") and val == 3) or ("nan" in t and val):
                    continue
                if op == "layer" and "nan" in t:
                    continue
                if op[0] == "r" and op != "r" and t.startswith("np") or op[0] == "r" and t == "0d":
                    pass
                for n, forms in ((0, "V"), (1, "V"), (1, "D"), (1, "I"), (2, "V")):
                    if n == 2 and op != "fillna":
                        continue
                    yield "scalars", dict(op=op, t={"nan": "float", "np.nan": "np.float64"}.get(t, t),
                                          c=None if "nan" in t else val, ns=[n], forms=[forms], fpts=[0, 0.5][:n])
    for t in ("int", "float", "np.int64", "np.float64", "bool", "np.int32"):
        for val in (1, 0, 3)[:2 if t == "bool" else 3]:
            for n in (0, 1):
                for op in ("layer_v", "layer_mix"):
                    for box in ("list", "array", "series"):
                        if box == "series" and op == "layer_mix" and t == "bool":
                            continue  # an object Series
                        yield "scalars", dict(op=op, t=t, c=val, box=box, ns=[n], forms=["V"], fpts=[0.5][:n])
                for then in ["neg", "sum", "layer", "clip"] + list(BIN):
                    for other in (0, 1):
                        if other != val:
                            yield "scalars", dict(op="from_values", then=then, other=other, t=t, c=val, ns=[n],
                                                  forms=["V"], fpts=[0.5][:n])
