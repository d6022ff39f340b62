"""What a harness sees.  The same harness code runs in two modes:

* symbolic: numbers are SymNum terms, conditions SymBool; `prove` collects proof obligations
  which the solver discharges at the end of every path;
* concrete: the real pandas/numpy and the values of a solver model; `prove` is an assertion.
"""
import contextlib
import math


class Cut(BaseException):
    """concrete mode: an assumption of the harness does not hold for these inputs"""


class Fail(BaseException):
    pass


NANV = float("nan")
INF = float("inf")


class Fn:
    """reference step function: len(vals) == len(pts) + 1, vals[i] holds from pts[i-1] on"""

    def __init__(self, pts, vals):
        self.pts, self.vals = list(pts), list(vals)
        assert len(self.vals) == len(self.pts) + 1

    def right_i(self, x):
        i = 0
        for p in self.pts:
            if p <= x:
                i += 1
            else:
                break
        return i

    def left_i(self, x):
        i = 0
        for p in self.pts:
            if p < x:
                i += 1
            else:
                break
        return i

    def right(self, x):
        return self.vals[self.right_i(x)]

    def left(self, x):
        return self.vals[self.left_i(x)]

    def at(self, x, closed):
        return self.right(x) if closed == "left" else self.left(x)

    def limit(self, x, side):
        return self.right(x) if side == "right" else self.left(x)

    def map(self, f):
        return Fn(self.pts, [f(v) for v in self.vals])

    def shift(self, d):
        return Fn([p + d for p in self.pts], self.vals)

    def __repr__(self):
        return "Fn(%r, %r)" % (self.pts, self.vals)


def merge(*lists):
    """sorted distinct union of sorted lists (branches on undecided order)"""
    out = []
    for l in lists:
        res, i = [], 0
        for p in l:
            while i < len(out) and out[i] < p:
                res.append(out[i])
                i += 1
            if i < len(out) and out[i] == p:
                res.append(out[i])
                i += 1
            else:
                res.append(p)
        res.extend(out[i:])
        out = res
    return out


def combine(f, *fns):
    """pointwise combination"""
    pts = merge(*[g.pts for g in fns])
    idx = [0] * len(fns)
    vals = [f(*[g.vals[0] for g in fns])]
    for p in pts:
        for k, g in enumerate(fns):
            if idx[k] < len(g.pts) and g.pts[idx[k]] == p:
                idx[k] += 1
        vals.append(f(*[g.vals[idx[k]] for k, g in enumerate(fns)]))
    return Fn(pts, vals)


def const(c):
    return Fn([], [c])


def restrict(fn, lo, hi, nan):
    """fn on [lo, hi), undefined elsewhere; lo/hi None = unbounded"""
    ind = Fn([], [1])
    if lo is not None and hi is not None:
        ind = Fn([lo, hi], [0, 1, 0])
    elif lo is not None:
        ind = Fn([lo], [0, 1])
    elif hi is not None:
        ind = Fn([hi], [1, 0])
    return combine(lambda v, i: v if i else nan, fn, ind)


class Dom:
    """a domain type; harness coordinates are plain numbers"""

    KINDS = ("float", "int", "ts", "tz", "dst", "td")

    def __init__(self, ctx, kind, scalar=None):
        self.ctx, self.kind, self.scalar = ctx, kind, scalar
        pd = ctx.pd
        self.tzname = {"tz": "UTC", "dst": "Australia/Sydney", "fix": "+05:30"}.get(kind)
        self.unit = None
        if kind in ("ts", "tz", "dst", "fix"):
            # a fixed instant (dst: an hour before the clock is set back)
            self.origin = pd.Timestamp("2020-04-04 15:00:00" if kind == "dst" else "2020-04-04 03:00:00")
            if self.tzname:
                self.origin = self.origin.tz_localize("UTC").tz_convert(self.tzname)
            self.unit = pd.Timedelta(1, unit="h")
        elif kind == "td":
            self.origin = pd.Timedelta(0)
            self.unit = pd.Timedelta(1, unit="h")

    @property
    def numeric(self):
        return self.unit is None

    @property
    def instant(self):
        return self.unit is not None and self.kind != "td"

    def pt(self, x):
        if self.kind == "int":
            return self.ctx.as_int(x)
        if self.numeric:
            return x
        return self.origin + self.dur(x)

    def dur(self, x):
        if self.kind == "int":
            return self.ctx.as_int(x)
        if self.numeric:
            return x
        return self.ctx.pd.Timedelta(x, unit="h")

    def unpt(self, label):
        if self.numeric:
            return self.ctx.num(label)
        if self.kind == "td":
            return self.undur(label)
        return self.undur(label - self.origin)

    def undur(self, d):
        if self.numeric:
            return self.ctx.num(d)
        if not self.ctx.symbolic:
            d = self.ctx.pd.Timedelta(d)
        return self.ctx.num(d / self.unit)

    def pts(self, xs):
        return [self.pt(x) for x in xs]

    def index(self, xs):
        pd = self.ctx.pd
        xs = [self.pt(x) for x in xs]
        if self.kind == "int" and not self.ctx.symbolic:
            return pd.Index(xs, dtype="int64")
        if self.kind == "float" and not self.ctx.symbolic:
            return pd.Index([float(x) for x in xs], dtype="float64")
        return pd.Index(xs)


class BaseCtx:
    symbolic = None

    def __init__(self, sc, np, pd, cfg):
        self.sc, self.np, self.pd, self.cfg = sc, np, pd, cfg
        self.inf = sc.inf
        self.obs = []
        self.dom = Dom(self, cfg.get("dom", "float"))

    def get(self, k, default=None):
        return self.cfg.get(k, default)

    # -- inputs built from primitive ones
    def val(self, name, nan=True, np=True):
        """a value: a real number or NaN"""
        if nan:
            return self._nanreal(name, np)
        return self.real(name, np=np)

    def points(self, name, n, lo=None):
        """n strictly increasing numbers"""
        if self.get("pts") and name == "fp":
            return [self.lit(x) for x in self.get("pts")]
        if self.get(name + "ts"):  # e.g. "gpts": concrete step points of operand "g"
            return [self.lit(x) for x in self.get(name + "ts")]
        out = []
        for i in range(n):
            p = self.real("%s%d" % (name, i), dom=True)
            if out:
                self.assume(out[-1] < p)
            out.append(p)
        return out

    def stairs(self, name, n, form="V", nan=True, closed="left", dom=None, minimal=True, vtype="f", init_nan=True,
               np=True):
        """an arbitrary step function with n step points -> (Stairs, Fn)

        form: V   from_values                      (values materialised, may be undefined anywhere)
              VD  from_values, step_changes read   (both forms)
              D   one vector layer call            (changes only; defined everywhere)
              DV  D, step_values read              (both)
              S   scalar layer calls
              VL  from_values, then layered everywhere by a number
              VN  minus the negated function (built by from_values, step_changes read)
        n == 0: step-free."""
        dom = dom or self.dom
        sc, pd = self.sc, self.pd
        pts = self.points(name + "p", n)
        if self.get("ik"):  # integer initial value (python or numpy)
            v0 = self.integer(name + "v0", np=self.get("ik") == "ni")
        elif form in ("D", "DV", "S"):
            v0 = self.val(name + "v0", nan and init_nan and n == 0, np=np)
        else:
            v0 = self.val(name + "v0", nan and init_nan, np=np)
        if self.get(name + "vals"):  # concrete values (None: undefined)
            v0, *fixed = [self.nanv() if v is None else self.lit(v) for v in self.get(name + "vals")]
        else:
            fixed = None
        if n == 0:
            s = sc.Stairs(initial_value=v0, closed=closed)
            return s, Fn([], [v0])
        if form in ("V", "VD", "VL", "VN"):
            vals = fixed or [self.val("%sv%d" % (name, i + 1), nan, np=True) for i in range(n)]
            if vtype == "i":
                vals = [self.as_int(v, np=True) for v in vals]
            if minimal:
                allv = [v0] + vals
                for a, b in zip(allv, allv[1:]):
                    self.assume(self.Not(self.same(a, b)))
            ser = pd.Series(vals, index=dom.index(pts))
            if not self.symbolic and vtype != "i":
                ser = ser.astype("float64")
            s = sc.Stairs.from_values(initial_value=v0, values=ser, closed=closed)
            if form in ("VD", "VN"):
                s.step_changes
            if form == "VN":
                return -s, Fn(pts, [-v for v in [v0] + vals])
            if form == "VL":
                c = self.val(name + "l", False, np=np)
                s.layer(None, None, c)
                return s, Fn(pts, [v + c for v in [v0] + vals])
            return s, Fn(pts, [v0] + vals)
        ds = [self.val("%sd%d" % (name, i + 1), False, np=True) for i in range(n)]
        if fixed:
            ds = [b - a for a, b in zip([v0] + fixed, fixed)]
        if minimal:
            for d in ds:
                self.assume(self.Not(d == 0))
        vals = [v0]
        for d in ds:
            vals.append(vals[-1] + d)
        s = sc.Stairs(initial_value=v0, closed=closed)
        if form == "S":
            for p, d in zip(pts, ds):
                s.layer(dom.pt(p), None, d)
        else:
            s.layer(dom.pts(pts), None, ds)
        if form == "DV":
            s.step_values
        return s, Fn(pts, vals)

    # -- reading results
    def fn(self, s, dom=None, key=None, wf=True):
        """the function a Stairs denotes, through its public views"""
        dom = dom or self.dom
        init = self.num(s.initial_value)
        sv = s.step_values
        labels = list(sv.index)
        pts = [dom.unpt(l) for l in labels]
        vals = [self.num(v) for v in list(sv.values)]
        if wf:
            for a, b in zip(pts, pts[1:]):
                self.prove(a < b, "%s: step points strictly increasing" % (key or "result"))
        f = Fn(pts, [init] + vals)
        if key:
            self.observe(key, [f.pts, f.vals, s.closed])
        return f

    def prove_same_fn(self, got, want, label):
        pts = merge(want.pts, got.pts)
        self.prove_same(got.vals[0], want.vals[0], label + " towards -inf")
        for p in pts:
            self.prove_same(got.right(p), want.right(p), label)

    def prove_same(self, got, want, label):
        self.prove(self.same(got, want), label)

    def prove_minimal(self, fn, label):
        for a, b in zip(fn.vals, fn.vals[1:]):
            self.prove(self.Not(self.same(a, b)), label + ": redundant step point")

    def fail(self, label):
        self.prove(False, label)

    def call(self, f, *a, **k):
        """-> (result, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except Exception as e:  # noqa: BLE001
            return None, e

    def quiet(self):
        import warnings

        c = warnings.catch_warnings()
        c.__enter__()
        warnings.simplefilter("ignore")
        return c


def _flat_key(name):
    return name


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng, mods, cfg):
        import z3

        from . import engine as E

        self.z3, self.E, self.eng = z3, E, eng
        self.inputs = {}  # name -> (kind, z3 term)
        super().__init__(*mods, cfg)

    # primitive inputs
    def real(self, name, dom=False, np=False, kind="f"):
        t = self.z3.Real(name)
        self.inputs[name] = ("real", t)
        return self.E.SymNum(t, kind=kind, np=np)

    def integer(self, name, np=False):
        """an integer (kept as a real term: an over-approximation)"""
        return self.real(name, kind="i", np=np)

    def _nanreal(self, name, np):
        t, b = self.z3.Real(name), self.z3.Bool(name + "?nan")
        self.inputs[name + "?nan"] = ("bool", b)
        self.inputs[name] = ("real", t)
        return self.E.SymNum(t, nan=b, np=np)

    def boolean(self, name):
        b = self.z3.Bool(name)
        self.inputs[name] = ("bool", b)
        return bool(self.E.SymBool(b))

    def choose(self, name, options):
        for i, o in enumerate(options[:-1]):
            if self.boolean("%s=%d" % (name, i)):
                return o
        return options[-1]

    def as_int(self, x, np=False):
        if isinstance(x, int):
            return x
        return x.with_(kind="i", np=np)

    def pyfloat(self, x):
        return self.E.SymNum.of(x).with_(np=False, kind="f")

    def npfloat(self, x):
        return self.E.SymNum.of(x).with_(np=True, kind="f")

    # conditions
    def b(self, c):
        if isinstance(c, self.E.SymBool):
            return c.b
        if isinstance(c, (bool, self.z3.ExprRef)):
            return c
        if c is None:
            return False
        raise TypeError("not a condition: %r" % (c,))

    def assume(self, c):
        self.eng.assume(self.b(c))

    def prove(self, c, label):
        self.eng.prove(self.b(c), label)

    def And(self, *cs):
        return self.E.SymBool(self.E.b_and(*[self.b(c) for c in cs]))

    def Or(self, *cs):
        return self.E.SymBool(self.E.b_or(*[self.b(c) for c in cs]))

    def Not(self, c):
        return self.E.SymBool(self.E.b_not(self.b(c)))

    def Iff(self, a, b):
        return self.E.SymBool(self.E.b_iff(self.b(a), self.b(b)))

    def ite(self, c, a, b):
        return self.E.ite_num(self.b(c), a, b)

    def isnan(self, v):
        v = self.num(v)
        return self.E.SymBool(v.nan)

    def num(self, v):
        if getattr(v, "shape", None) == () and hasattr(v, "cells"):
            v = v.item()  # zero-dimensional array
        n = self.E.SymNum.of(v)
        if n is None:
            from . import pdshim, scalars

            if v is scalars.NaT or v is getattr(pdshim, "NA", None) or v is None:
                return self.E.SymNum(0, nan=True)
            raise NotANumber("not a number: %r" % (v,))
        return n

    def nanv(self):
        return self.E.SymNum(0, nan=True)

    def lit(self, x):
        return self.E.SymNum.of(x).with_(kind="f")

    def same(self, a, b):
        """equal finite numbers, or both NaN"""
        E = self.E
        a, b = self.num(a), self.num(b)
        return E.SymBool(E.b_and(
            E.b_iff(a.nan, b.nan), E.b_not(E.b_or(a.pinf, a.ninf, b.pinf, b.ninf)),
            E.b_or(a.nan, E.r_eq(a.r, b.r))))

    def sqrt(self, x):
        return self.E.sqrt(self.E.SymNum.of(x))

    def div(self, a, b):
        """a / b, undefined where b is 0"""
        E = self.E
        a, b = self.num(a), self.num(b)
        if not E.is_sym(b.r) and b.r == 0:
            return self.nanv()
        return E.SymNum(E.r_div(a.r, b.r), nan=E.b_or(a.nan, b.nan, E.r_eq(b.r, 0)))

    def ind(self, c, *nanof):
        """0/1 indicator of c, undefined where one of nanof is"""
        E = self.E
        c = self.b(c)
        nan = E.b_or(*[self.num(v).nan for v in nanof]) if nanof else False
        if isinstance(c, bool):
            return E.SymNum(int(c), nan=nan)
        return E.SymNum(E.r_ite(c, 1, 0), nan=nan)

    def observe(self, key, val):
        self.obs.append((key, val))


class NotANumber(Exception):
    """a value read back from the code under test is not a number"""


def tol_eq(a, b):
    if a == b:
        return True
    return abs(a - b) <= 1e-9 * (1.0 + abs(a) + abs(b))


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, mods, cfg, inputs):
        self.inputs = inputs
        self.failed = []
        super().__init__(*mods, cfg)

    def real(self, name, dom=False, np=False, kind="f"):
        v = self.inputs.get(name, 0)
        if kind == "i":
            if v != int(v):
                raise Cut()
            return self.np.int64(v) if np else int(v)
        return self.np.float64(v) if np else float(v)

    def integer(self, name, np=False):
        return self.real(name, kind="i", np=np)

    def _nanreal(self, name, np):
        v = NANV if self.inputs.get(name + "?nan", False) else float(self.inputs.get(name, 0))
        return self.np.float64(v) if np else v

    def boolean(self, name):
        return bool(self.inputs.get(name, False))

    def choose(self, name, options):
        for i, o in enumerate(options[:-1]):
            if self.boolean("%s=%d" % (name, i)):
                return o
        return options[-1]

    def as_int(self, x, np=False):
        if x != x or x != int(x):
            raise Cut()
        return self.np.int64(x) if np else int(x)

    def pyfloat(self, x):
        return float(x)

    def npfloat(self, x):
        return self.np.float64(x)

    def assume(self, c):
        if not c:
            raise Cut()

    def prove(self, c, label):
        if not bool(c):
            self.failed.append(label)

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def isnan(self, v):
        return self.num(v) != self.num(v)

    def num(self, v):
        if v is self.pd.NaT or v is self.pd.NA or v is None:
            return NANV
        if isinstance(v, (bool, int, float)) or isinstance(v, self.np.generic) or (
                isinstance(v, self.np.ndarray) and v.shape == ()):
            try:
                return float(v)
            except (TypeError, ValueError):
                pass
        raise NotANumber("not a number: %r" % (v,))

    def nanv(self):
        return NANV

    def lit(self, x):
        return float(x)

    def same(self, a, b):
        a, b = self.num(a), self.num(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return False
        return tol_eq(a, b)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else NANV

    def div(self, a, b):
        a, b = self.num(a), self.num(b)
        if a != a or b != b or b == 0:
            return NANV
        return a / b

    def ind(self, c, *nanof):
        if any(self.isnan(v) for v in nanof):
            return NANV
        return 1.0 if c else 0.0

    def observe(self, key, val):
        self.obs.append((key, val))
