"""Symbolic model of the part of numpy that staircase (and likely edits of it) use."""
import builtins
import sys
import types

from . import engine as E
from .engine import (
    NAN, SymBool, SymNum, Unsupported, b_and, b_iff, b_not, b_or, is_sym, ite_num, r_eq,
    r_lt,
)
from .scalars import (
    DT64, NaT, PyDatetime, PyTimedelta, TD64, Timedelta, Timestamp, as_tz, dt_payload,
    is_duration, is_instant, td_payload, tz_key,
)


# ------------------------------------------------------------------ dtypes
class DType:
    def __init__(self, name, kind, tz=None):
        self.name, self.kind, self.tz = name, kind, tz
        self.type = None

    def __eq__(self, o):
        if isinstance(o, DType):
            return self.name == o.name
        try:
            return self.name == as_dtype(o).name
        except (TypeError, Unsupported):
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return self.name

    def __repr__(self):
        return "dtype('%s')" % self.name


float64_dt = DType("float64", "f")
int64_dt = DType("int64", "i")
bool_dt = DType("bool", "b")
object_dt = DType("object", "O")
dt64_dt = DType("datetime64[ns]", "M")
td64_dt = DType("timedelta64[ns]", "m")
_tzdts = {}


def tz_dt(tz):
    if tz is None:
        return dt64_dt
    k = tz_key(tz)
    if k not in _tzdts:
        _tzdts[k] = DType("datetime64[ns, %s]" % k, "M", as_tz(tz))
    return _tzdts[k]


_ALIAS = {
    "float64": float64_dt, "float": float64_dt, "f8": float64_dt, "<f8": float64_dt, "d": float64_dt,
    "int64": int64_dt, "int": int64_dt, "i8": int64_dt, "<i8": int64_dt, "intp": int64_dt,
    "int32": int64_dt, "float32": float64_dt,
    "bool": bool_dt, "boolean?": bool_dt, "object": object_dt, "O": object_dt,
    "datetime64[ns]": dt64_dt, "<M8[ns]": dt64_dt, "M8[ns]": dt64_dt, "datetime64": dt64_dt,
    "timedelta64[ns]": td64_dt, "<m8[ns]": td64_dt, "m8[ns]": td64_dt, "timedelta64": td64_dt,
}


def as_dtype(d):
    if isinstance(d, DType):
        return d
    if getattr(d, "_sx_extdtype", False):
        return d
    if isinstance(d, str):
        if d in _ALIAS:
            return _ALIAS[d]
        if d.startswith("datetime64[ns, "):
            return tz_dt(d[15:-1])
        raise TypeError("data type %r not understood" % d)
    if d is builtins.float or d is SFloat or d is np_float64:
        return float64_dt
    if d is builtins.int or d is SInt or d is np_int64:
        return int64_dt
    if d is builtins.bool or d is np_bool_ or d is SBoolType:
        return bool_dt
    if d is builtins.object:
        return object_dt
    if d is DT64:
        return dt64_dt
    if d is TD64:
        return td64_dt
    raise TypeError("data type %r not understood" % (d,))


class _NpDtypeMeta(type):
    def __call__(cls, d=None, *a, **k):
        return float64_dt if d is None else as_dtype(d)

    def __instancecheck__(cls, x):
        return type(x) is DType and getattr(x, "tz", None) is None


class NpDtype(metaclass=_NpDtypeMeta):
    """numpy.dtype"""


# ------------------------------------------------------------------ cells
def is_nan_cell(c):
    """boolean payload: is this cell missing"""
    if isinstance(c, SymNum):
        return c.nan
    if isinstance(c, SymBool):
        return False
    if isinstance(c, float):
        return c != c
    return c is None or c is NaT or getattr(c, "_sx_na", False)


def nan_num():
    return SymNum(0, nan=True)


def scalar_dtype(x):
    if isinstance(x, (SymBool, bool)):
        return bool_dt
    if isinstance(x, SymNum):
        return float64_dt if x.kind == "f" else int64_dt
    if isinstance(x, int):
        return int64_dt
    if isinstance(x, float) or isinstance(x, E.Fraction):
        return float64_dt
    if isinstance(x, DT64):
        return dt64_dt
    if isinstance(x, TD64):
        return td64_dt
    return object_dt


def pd_scalar_dtype(x):
    """like scalar_dtype but pandas style: datetime scalars get a datetime dtype"""
    p = dt_payload(x)
    if p is not None:
        return tz_dt(p[1])
    if td_payload(x) is not None:
        return td64_dt
    return scalar_dtype(x)


def cast_cell(x, dt):
    k = dt.kind
    if k == "f":
        if isinstance(x, SymNum):
            if x.kind == "f" and x.np:
                return x
            return x.with_(kind="f", np=True)
        n = SymNum.of(x)
        if n is not None:
            return n.with_(kind="f", np=True)
        if x is None or x is NaT or getattr(x, "_sx_na", False):
            if x is NaT:
                raise TypeError("float() argument must be a string or a real number, not 'NaTType'")
            if x is not None:
                raise TypeError("float() argument must be a string or a real number, not 'NAType'")
            return nan_num()
        if isinstance(x, str):
            return SymNum.of(float(x)).with_(np=True)
        raise TypeError("float() argument must be a string or a real number, not %r" % type(x).__name__)
    if k == "i":
        n = SymNum.of(x)
        if n is None:
            if is_instant(x) or is_duration(x):
                return x.n.with_(kind="i")
            raise TypeError("int() argument must be ... not %r" % type(x).__name__)
        if n.kind == "i":
            return n if n.np else n.with_(np=True)
        if bool(SymBool(b_or(n.nan, n.pinf, n.ninf))):
            raise ValueError("Cannot convert non-finite values (NA or inf) to integer")
        return n.__trunc__().with_(np=True)
    if k == "b":
        if isinstance(x, SymBool):
            return x if x.np else SymBool(x.b)
        if isinstance(x, bool):
            return SymBool(x)
        n = SymNum.of(x)
        if n is not None:
            return SymBool(b_or(n.nan, n.pinf, n.ninf, b_not(r_eq(n.r, 0))))
        return SymBool(bool(x))
    if k == "M":
        if isinstance(x, SymNum):
            return x.with_(kind="i", np=True)
        p = dt_payload(x)
        if p is not None:
            return p[0].with_(kind="i", np=True)
        if is_nan_cell(x) is True:
            return SymNum(0, nan=True, kind="i")
        raise TypeError("cannot convert %r to datetime64" % (x,))
    if k == "m":
        if isinstance(x, SymNum):
            return x.with_(kind="i", np=True)
        p = td_payload(x)
        if p is not None:
            return p.with_(kind="i", np=True)
        if is_nan_cell(x) is True:
            return SymNum(0, nan=True, kind="i")
        raise TypeError("cannot convert %r to timedelta64" % (x,))
    return x


def box(c, dt, pandas=False):
    """python-visible scalar of a cell"""
    k = dt.kind
    if k == "M":
        if SymBool(c.nan):
            return NaT
        if pandas:
            return Timestamp._make(c, dt.tz)
        return DT64._make(c)
    if k == "m":
        if SymBool(c.nan):
            return NaT
        return Timedelta._make(c) if pandas else TD64._make(c)
    return c


def common_dtype(dts, pandas=False):
    dts = list(dts)
    if not dts:
        return float64_dt
    out = dts[0]
    for d in dts[1:]:
        if d == out:
            continue
        ks = {d.kind, out.kind}
        if ks <= {"f", "i"}:
            out = float64_dt
        elif ks <= {"f", "i", "b"} and not pandas:
            out = float64_dt if "f" in ks else int64_dt
        else:
            out = object_dt
    return out


def convert_cells(cells, src, dst, pandas=False):
    if src == dst:
        return list(cells)
    if dst.kind == "O":
        return [box(c, src, pandas) for c in cells]
    if src.kind in "Mm" and dst.kind in "f":
        raise TypeError("Cannot cast %s to dtype float64" % src)
    if src.kind in "fib" and dst.kind in "Mm":
        return [SymNum.of(c).with_(kind="i") for c in cells]
    return [cast_cell(c, dst) for c in cells]


def scalar_astype(x, t):
    return box(cast_cell(x, as_dtype(t)), as_dtype(t))


# ------------------------------------------------------------------ cell operations
def _num(c):
    return c.num() if isinstance(c, SymBool) else c


ARITH = {"add", "sub", "mul", "truediv", "floordiv", "mod", "pow"}
CMP = {"lt", "le", "gt", "ge", "eq", "ne"}
BITS = {"and", "or", "xor"}
LOGIC = {"logical_and", "logical_or", "logical_xor"}
import operator as _op

PYOP = {
    "add": _op.add, "sub": _op.sub, "mul": _op.mul, "truediv": _op.truediv,
    "floordiv": _op.floordiv, "mod": _op.mod, "pow": _op.pow, "lt": _op.lt, "le": _op.le,
    "gt": _op.gt, "ge": _op.ge, "eq": _op.eq, "ne": _op.ne, "and": _op.and_, "or": _op.or_,
    "xor": _op.xor,
}


def result_dtype(op, a, b):
    ka, kb = a.kind, b.kind
    if op in CMP or op in LOGIC:
        if op in CMP:
            if ka == "M" and kb == "M" and (a.tz is None) != (b.tz is None):
                if op in ("eq", "ne"):
                    return bool_dt
                raise TypeError("Cannot compare tz-naive and tz-aware datetime-like objects")
            if ("M" in (ka, kb) or "m" in (ka, kb)) and ka != kb and "O" not in (ka, kb):
                if op not in ("eq", "ne"):
                    raise TypeError("Invalid comparison between dtype=%s and %s" % (a, b))
        return bool_dt
    if op in ("maximum", "minimum", "fmax", "fmin"):
        return common_dtype([a, b])
    if "O" in (ka, kb):
        return object_dt
    if op in BITS:
        if ka == kb == "b":
            return bool_dt
        if ka in "ib" and kb in "ib":
            return int64_dt
        raise TypeError("unsupported operand type(s) for bitwise operation: %s and %s" % (a, b))
    if ka in "fib" and kb in "fib":
        if op == "truediv":
            return float64_dt
        if ka == kb == "b":
            if op == "sub":
                raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
            return bool_dt if op in ("add", "mul") else int64_dt
        return float64_dt if "f" in (ka, kb) else int64_dt
    if op == "add":
        if (ka, kb) == ("M", "m"):
            return a
        if (ka, kb) == ("m", "M"):
            return b
        if ka == kb == "m":
            return td64_dt
    elif op == "sub":
        if (ka, kb) == ("M", "m"):
            return a
        if ka == kb == "M":
            if (a.tz is None) != (b.tz is None):
                raise TypeError("Cannot subtract tz-naive and tz-aware datetime-like objects.")
            return td64_dt
        if ka == kb == "m":
            return td64_dt
    elif op == "mul":
        if (ka == "m" and kb in "fi") or (kb == "m" and ka in "fi"):
            return td64_dt
        if (ka == "m" and kb == "b") or (kb == "m" and ka == "b"):
            return td64_dt
    elif op == "truediv":
        if ka == kb == "m":
            return float64_dt
        if ka == "m" and kb in "fi":
            return td64_dt
    elif op in ("floordiv",):
        if ka == kb == "m":
            return int64_dt
    raise TypeError("cannot perform %s with types %s and %s" % (op, a, b))


def cell_op(op, x, dx, y, dy, dt):
    """apply op to two cells of dtypes dx, dy giving a cell of dtype dt"""
    if dx.kind == "O" or dy.kind == "O":
        bx, by = box(x, dx, True), box(y, dy, True)
        if op in PYOP:
            try:
                r = PYOP[op](bx, by)
            except TypeError:
                if bx is None and op in CMP:
                    raise
                raise
            return cast_cell(r, dt) if dt.kind != "O" else r
        if op in LOGIC:
            tx, ty = bool(bx), bool(by)
            return SymBool({"logical_and": tx and ty, "logical_or": tx or ty,
                            "logical_xor": tx != ty}[op])
        if op == "maximum":
            return bx if bx >= by else by
        if op == "minimum":
            return bx if bx <= by else by
        raise Unsupported("object op " + op)
    if op in LOGIC:
        tx, ty = cast_cell(x, bool_dt).b, cast_cell(y, bool_dt).b
        if op == "logical_and":
            return SymBool(b_and(tx, ty))
        if op == "logical_or":
            return SymBool(b_or(tx, ty))
        return SymBool(b_not(b_iff(tx, ty)))
    if op in CMP:
        a, b = _num(x), _num(y)
        if "M" in (dx.kind, dy.kind) or "m" in (dx.kind, dy.kind):
            if dx.kind != dy.kind or (dx.kind == "M" and (dx.tz is None) != (dy.tz is None)):
                return SymBool(op == "ne")
        if op == "lt":
            return SymBool(a._lt(b))
        if op == "gt":
            return SymBool(b._lt(a))
        if op == "le":
            return SymBool(a._le(b))
        if op == "ge":
            return SymBool(b._le(a))
        if op == "eq":
            return SymBool(a._eq(b))
        return SymBool(b_not(a._eq(b)))
    if op in BITS:
        if dt.kind == "b":
            if op == "and":
                return SymBool(b_and(x.b, y.b))
            if op == "or":
                return SymBool(b_or(x.b, y.b))
            return SymBool(b_not(b_iff(x.b, y.b)))
        raise Unsupported("bitwise integers")
    if op in ("maximum", "minimum"):
        a, b = _num(x), _num(y)
        l = a._lt(b) if op == "maximum" else b._lt(a)
        r = ite_num(b_or(a.nan, b_and(b_not(b.nan), b_not(l))), a, b)
        return cast_cell(r, dt)
    if op in ("fmax", "fmin"):
        a, b = _num(x), _num(y)
        l = a._lt(b) if op == "fmax" else b._lt(a)
        r = ite_num(b_or(b.nan, b_and(b_not(a.nan), b_not(l))), a, b)
        return cast_cell(r, dt)
    if dt.kind == "b":  # bool + bool, bool * bool
        return SymBool(b_or(x.b, y.b) if op == "add" else b_and(x.b, y.b))
    a, b = _num(x), _num(y)
    if op == "add":
        r = a._add(b)
    elif op == "sub":
        r = a._sub(b)
    elif op == "mul":
        r = a._mul(b)
    elif op == "truediv":
        r = a._div(b)
    elif op == "floordiv":
        r = a._floordiv(b)
    elif op == "mod":
        r = a._mod(b)
    elif op == "pow":
        r = a ** b
    else:
        raise Unsupported("op " + op)
    if dt.kind in "Mm":
        if r.has_inf():
            r = r.with_(nan=b_or(r.nan, r.pinf, r.ninf), pinf=False, ninf=False)
        return r.with_(kind="i", np=True)
    return r.with_(kind=dt.kind if dt.kind in "fi" else r.kind, np=True)


def cells_cmp_lt(a, b, dt):
    """sort order on cells of one dtype (missing last) -> bool payload"""
    if dt.kind == "O":
        return a < b
    a, b = _num(a), _num(b)
    if a.nan is False and b.nan is False:
        return SymBool(a._lt(b))
    return SymBool(b_or(a._lt(b), b_and(b_not(a.nan), b.nan)))


def stable_argsort(cells, dt):
    order = []
    for i, c in enumerate(cells):
        j = len(order)
        while j > 0 and cells_cmp_lt(c, cells[order[j - 1]], dt):
            j -= 1
        order.insert(j, i)
    return order


def cells_equal(a, b, dt, equal_nan=False):
    if dt.kind == "O":
        if is_nan_cell(a) is True and is_nan_cell(b) is True:
            return SymBool(True)
        r = a == b
        return r if isinstance(r, SymBool) else SymBool(bool(r))
    a, b = _num(a), _num(b)
    e = a._eq(b)
    if equal_nan:
        e = b_or(e, b_and(a.nan, b.nan))
    return SymBool(e)


# ------------------------------------------------------------------ ndarray
class ndarray:
    __array_ufunc__ = None

    def __init__(self, cells, dtype, shape=None, buf=None, pos=None, writeable=True):
        if buf is None:
            self.buf = list(cells)
            self.pos = range(len(self.buf))
        else:
            self.buf, self.pos = buf, pos
        self.dtype = dtype
        self.shape = (len(self.pos),) if shape is None else tuple(shape)

    # -- basics
    @property
    def cells(self):
        b = self.buf
        return [b[i] for i in self.pos]

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return len(self.pos)

    @property
    def nbytes(self):
        return 8 * len(self.pos)

    @property
    def T(self):
        if self.ndim < 2:
            return self
        m, n = self.shape
        pos = [self.pos[i * n + j] for j in range(n) for i in range(m)]
        return ndarray(None, self.dtype, (n, m), self.buf, pos)

    def transpose(self):
        return self.T

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def _row(self, i):
        n = self.shape[1]
        return ndarray(None, self.dtype, self.shape[1:], self.buf, self.pos[i * n:(i + 1) * n])

    def __iter__(self):
        if self.ndim == 1:
            return iter([box(c, self.dtype) for c in self.cells])
        return iter([self._row(i) for i in range(self.shape[0])])

    def rows(self):
        return [self._row(i).cells for i in range(self.shape[0])]

    def copy(self, order=None):
        return ndarray(self.cells, self.dtype, self.shape)

    def view(self, dtype=None):
        if dtype is not None and as_dtype(dtype) != self.dtype:
            raise Unsupported("ndarray.view(dtype)")
        return ndarray(None, self.dtype, self.shape, self.buf, self.pos)

    def astype(self, dtype, copy=True):
        d = as_dtype(dtype)
        if d.kind == "O" and self.dtype.kind in "Mm":
            return ndarray([box(c, self.dtype) for c in self.cells], d, self.shape)
        return ndarray(convert_cells(self.cells, self.dtype, d), d, self.shape)

    def item(self, *a):
        if a:
            c = self[a if len(a) > 1 else a[0]]
        else:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            c = box(self.buf[self.pos[0]], self.dtype)
        return c.item() if hasattr(c, "item") else c

    def tolist(self):
        if self.ndim == 2:
            return [r.tolist() for r in self]
        return [c.item() if hasattr(c, "item") else c
                for c in (box(c, self.dtype) for c in self.cells)]

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous."
                             " Use a.any() or a.all()")
        return bool(box(self.buf[self.pos[0]], self.dtype))

    def __float__(self):
        return self.item().__float__()

    def __index__(self):
        return self.item().__index__()

    def __contains__(self, x):
        return bool((self == x).any())

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    # -- indexing
    def _norm_key(self, k, n):
        """-> ('i', int) | ('v', positions as range) | ('c', list of positions)"""
        if isinstance(k, SymNum):
            k = k.__index__()
        if isinstance(k, (int,)) and not isinstance(k, bool):
            if not -n <= k < n:
                raise IndexError("index %d is out of bounds for axis 0 with size %d" % (k, n))
            return "i", k % n
        if isinstance(k, slice):
            k = slice(*[None if v is None else _op.index(v) for v in (k.start, k.stop, k.step)])
            return "v", range(n)[k]
        if k is Ellipsis:
            return "v", range(n)
        if isinstance(k, (list, tuple)) or hasattr(k, "_sx_array"):
            k = asarray(k)
        if isinstance(k, ndarray):
            if k.ndim == 0:
                return self._norm_key(k.item(), n)
            if k.dtype.kind == "b" or (
                    k.dtype.kind == "O" and k.size
                    and builtins.all(isinstance(c, (SymBool, bool)) for c in k.cells)):
                if k.size != n:
                    raise IndexError("boolean index did not match indexed array")
                return "c", [i for i, c in enumerate(k.cells) if c]
            if k.size == 0:
                return "c", []
            out = []
            for c in k.cells:
                i = c.__index__()
                if not -n <= i < n:
                    raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, n))
                out.append(i % n)
            return "c", out
        raise IndexError("only integers, slices (`:`), ellipsis (`...`) and integer or boolean arrays"
                         " are valid indices")

    def __getitem__(self, k):
        if self.ndim == 2:
            return self._getitem2(k)
        if k is None or (isinstance(k, tuple) and None in [x for x in k if x is None]):
            if isinstance(k, tuple) and k == (slice(None), None):
                return ndarray(None, self.dtype, (len(self), 1), self.buf, self.pos)
            if k is None or k == (None, slice(None)):
                return ndarray(None, self.dtype, (1, len(self)), self.buf, self.pos)
            raise Unsupported("newaxis indexing")
        if k is Ellipsis:
            return ndarray(None, self.dtype, self.shape, self.buf, self.pos)
        if isinstance(k, tuple):
            if not k:
                if not self.shape:
                    return box(self.buf[self.pos[0]], self.dtype)
                return ndarray(None, self.dtype, self.shape, self.buf, self.pos)
            if len(k) != 1:
                raise IndexError("too many indices for array")
            k = k[0]
        if not self.shape:
            raise IndexError("too many indices for array: array is 0-dimensional")
        t, v = self._norm_key(k, len(self))
        if t == "i":
            return box(self.buf[self.pos[v]], self.dtype)
        if t == "v":
            return ndarray(None, self.dtype, None, self.buf, [self.pos[i] for i in v])
        return ndarray([self.buf[self.pos[i]] for i in v], self.dtype)

    def _pos2(self, k):
        if k == () or k is Ellipsis:
            k = (slice(None), slice(None))
        if not isinstance(k, tuple):
            k = (k, slice(None))
        m, n = self.shape
        (t1, v1), (t2, v2) = self._norm_key(k[0], m), self._norm_key(k[1], n)
        rows = [v1] if t1 == "i" else list(v1)
        cols = [v2] if t2 == "i" else list(v2)
        if t1 == "c" and t2 == "c":
            raise Unsupported("2-d fancy indexing")
        pos = [self.pos[i * n + j] for i in rows for j in cols]
        shape = tuple(len(x) for t, x in ((t1, rows), (t2, cols)) if t != "i")
        return pos, shape, t1 == "c" or t2 == "c"

    def _getitem2(self, k):
        if isinstance(k, ndarray) and k.ndim == 2:
            raise Unsupported("2-d boolean indexing")
        pos, shape, copy = self._pos2(k)
        if shape == ():
            return box(self.buf[pos[0]], self.dtype)
        if copy:
            return ndarray([self.buf[p] for p in pos], self.dtype, shape)
        return ndarray(None, self.dtype, shape, self.buf, pos)

    def _assign(self, positions, value, shape=None):
        if isinstance(value, (ndarray, list, tuple)) or hasattr(value, "_sx_array"):
            v = asarray(value)
            if v.ndim == 0 or v.size == 1 and len(positions) != 1:
                vals = v.cells * len(positions)
            else:
                if v.size != len(positions):
                    raise ValueError(
                        "NumPy boolean array indexing assignment cannot assign %d input values to "
                        "the %d output values where the mask is true" % (v.size, len(positions)))
                vals = v.cells
            vals = convert_cells(vals, v.dtype, self.dtype)
        else:
            vals = [cast_cell(value, self.dtype)] * len(positions)
            if self.dtype.kind in "i":
                pass
        for p, c in zip(positions, vals):
            self.buf[p] = c

    def __setitem__(self, k, value):
        if self.ndim == 2:
            pos, shape, _ = self._pos2(k)
            return self._assign(pos, value)
        if not self.shape:
            return self._assign(list(self.pos), value)
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        kk = asarray(k) if isinstance(k, (list,)) or hasattr(k, "_sx_array") else k
        if (isinstance(kk, ndarray) and kk.dtype.kind == "b" and self.dtype.kind in "fib"
                and not isinstance(value, (ndarray, list, tuple))
                and not hasattr(value, "_sx_array")):
            # scalar store under a mask: no branching needed
            c = cast_cell(value, self.dtype)
            for i, m in enumerate(kk.cells):
                p = self.pos[i]
                self.buf[p] = ite_cell(m.b, c, self.buf[p], self.dtype)
            return
        t, v = self._norm_key(kk, len(self))
        self._assign([self.pos[v]] if t == "i" else [self.pos[i] for i in v], value)

    # -- operators
    def _binop(self, o, op, swap=False):
        if getattr(o, "_sx_defer", False):
            return NotImplemented
        if hasattr(o, "_sx_ufunc"):
            return o._sx_ufunc(op, o, self) if swap else o._sx_ufunc(op, self, o)
        if hasattr(o, "_sx_array"):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = asarray(o)
        if not isinstance(o, ndarray):
            o2 = scalar_array(o)
            if o2 is None:
                if op in ("eq", "ne") and not swap:
                    o2 = ndarray([o], object_dt, ())
                elif hasattr(type(o), "__dict__"):
                    return NotImplemented
            o = o2
        return elementwise(op, o, self) if swap else elementwise(op, self, o)

    def any(self, axis=None):
        return reduce_any(self, axis)

    def all(self, axis=None):
        return reduce_all(self, axis)

    def sum(self, axis=None, **k):
        return reduce_sum(self, axis)

    def mean(self, axis=None, **k):
        return reduce_mean(self, axis)

    def min(self, axis=None, **k):
        return reduce_minmax(self, axis, "minimum")

    def max(self, axis=None, **k):
        return reduce_minmax(self, axis, "maximum")

    def cumsum(self, axis=None):
        return cumsum(self)

    def dot(self, o):
        return dot(self, o)

    __matmul__ = dot

    def argsort(self, kind=None, **k):
        return ndarray([SymNum(i, kind="i") for i in stable_argsort(self.cells, self.dtype)], int64_dt)

    def argmax(self, axis=None):
        return argext(self, "maximum")

    def argmin(self, axis=None):
        return argext(self, "minimum")

    def sort(self, **k):
        o = [self.cells[i] for i in stable_argsort(self.cells, self.dtype)]
        for p, c in zip(self.pos, o):
            self.buf[p] = c

    def searchsorted(self, v, side="left", sorter=None):
        return searchsorted(self, v, side)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        shape = [int(s) for s in shape]
        n = self.size
        if -1 in shape:
            rest = 1
            for s in shape:
                if s != -1:
                    rest *= s
            shape[shape.index(-1)] = n // rest
        return ndarray(None, self.dtype, tuple(shape), self.buf, self.pos)

    def ravel(self, *a):
        return ndarray(None, self.dtype, None, self.buf, self.pos)

    def flatten(self, *a):
        return ndarray(self.cells, self.dtype)

    flat = property(ravel)

    def take(self, idx, axis=None):
        return self[asarray(idx)]

    def repeat(self, n):
        return ndarray([c for c in self.cells for _ in range(n)], self.dtype)

    def fill(self, v):
        self._assign(list(self.pos), v)

    def nonzero(self):
        return (ndarray([SymNum(i, kind="i") for i, c in enumerate(self.cells)
                         if cast_cell(c, bool_dt)], int64_dt),)

    def clip(self, lo=None, hi=None):
        r = self
        if lo is not None:
            r = maximum(r, lo)
        if hi is not None:
            r = minimum(r, hi)
        return r

    def round(self, *a):
        raise Unsupported("ndarray.round")

    def __neg__(self):
        if self.dtype.kind == "b":
            raise TypeError("The numpy boolean negative, the `-` operator, is not supported, use the"
                            " `~` operator or the logical_not function instead.")
        if self.dtype.kind == "O":
            return ndarray([-c for c in self.cells], object_dt, self.shape)
        return ndarray([c._neg() for c in self.cells], self.dtype, self.shape)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return ndarray([abs(c) for c in self.cells], self.dtype, self.shape)

    def __invert__(self):
        if self.dtype.kind == "b":
            return ndarray([SymBool(b_not(c.b)) for c in self.cells], bool_dt, self.shape)
        if self.dtype.kind == "O":
            return ndarray([~c for c in self.cells], object_dt, self.shape)
        raise TypeError("ufunc 'invert' not supported for the input types")

    def __repr__(self):
        return "array(%r, dtype=%s)" % (self.cells, self.dtype)

    def __array__(self, *a):
        raise Unsupported("real numpy conversion")


def _install_ops():
    for name, op in (
            ("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "truediv"),
            ("floordiv", "floordiv"), ("mod", "mod"), ("pow", "pow"), ("and", "and"), ("or", "or"),
            ("xor", "xor")):
        setattr(ndarray, "__%s__" % name, lambda s, o, op=op: s._binop(o, op))
        setattr(ndarray, "__r%s__" % name, lambda s, o, op=op: s._binop(o, op, True))
    for name in CMP:
        setattr(ndarray, "__%s__" % name, lambda s, o, op=name: s._binop(o, op))

    def inplace(op):
        def f(self, o):
            r = self._binop(o, op)
            if r is NotImplemented:
                return r
            self._assign(list(self.pos), r)
            return self
        return f

    for name in ("add", "sub", "mul", "truediv", "and", "or", "xor"):
        setattr(ndarray, "__i%s__" % name, inplace(name))


_install_ops()


def ite_cell(c, a, b, dt):
    k = E.known(c)
    if k is not None:
        return a if k else b
    if dt.kind == "b":
        return SymBool(E.b_ite(c, a.b, b.b))
    if dt.kind == "O":
        return a if SymBool(c) else b
    return cast_cell(ite_num(c, a, b), dt)


def scalar_array(x):
    """0-d array of a scalar or None"""
    d = scalar_dtype(x)
    if d.kind != "O":
        return ndarray([cast_cell(x, d)], d, ())
    p = dt_payload(x)
    if p is not None:
        return ndarray([p[0]], tz_dt(p[1]), ())
    p = td_payload(x)
    if p is not None:
        return ndarray([p], td64_dt, ())
    if x is None or x is NaT or isinstance(x, str):
        return ndarray([x], object_dt, ())
    return None


def _scalarize(a):
    """numpy returns scalars rather than 0-d arrays from operations"""
    if a.shape == ():
        return box(a.buf[a.pos[0]], a.dtype)
    return a


def broadcast(a, b):
    if a.shape == b.shape:
        return a.cells, b.cells, a.shape
    if a.ndim == 0:
        return a.cells * b.size, b.cells, b.shape
    if b.ndim == 0:
        return a.cells, b.cells * a.size, a.shape
    if a.ndim == 1 and b.ndim == 1:
        if len(a) == 1:
            return a.cells * len(b), b.cells, b.shape
        if len(b) == 1:
            return a.cells, b.cells * len(a), a.shape
        raise ValueError("operands could not be broadcast together with shapes %s %s" % (a.shape, b.shape))

    def to2(x):
        if x.ndim == 2:
            return x
        return ndarray(None, x.dtype, (1, len(x)), x.buf, x.pos)

    a, b = to2(a), to2(b)
    m, n = builtins.max(a.shape[0], b.shape[0]), builtins.max(a.shape[1], b.shape[1])
    for x in (a, b):
        if x.shape[0] not in (1, m) or x.shape[1] not in (1, n):
            raise ValueError("operands could not be broadcast together")

    def get(x):
        c = x.cells
        w = x.shape[1]
        return [c[(i if x.shape[0] > 1 else 0) * w + (j if w > 1 else 0)]
                for i in range(m) for j in range(n)]

    return get(a), get(b), (m, n)


def elementwise(op, a, b):
    ca, cb, shape = broadcast(a, b)
    try:
        dt = result_dtype(op, a.dtype, b.dtype)
    except TypeError:
        if op in ("eq", "ne"):
            return ndarray([SymBool(op == "ne") for _ in ca], bool_dt, shape)
        raise
    out = ndarray([cell_op(op, x, a.dtype, y, b.dtype, dt) for x, y in zip(ca, cb)], dt, shape)
    return _scalarize(out)


def infer_array(seq, pandas=False):
    """1-d cells + dtype from a python sequence of scalars"""
    seq = list(seq)
    f = pd_scalar_dtype if pandas else scalar_dtype
    dts = []
    missing = False
    for x in seq:
        if pandas and (x is None or x is NaT or getattr(x, "_sx_na", False)):
            missing = True
            continue
        d = f(x)
        if pandas and d.kind == "f" and isinstance(SymNum.of(x).nan, bool) and SymNum.of(x).nan:
            missing = True
            if builtins.any(e.kind in "Mm" for e in dts):
                continue
        dts.append(d)
    if not dts:
        if pandas and missing and seq and builtins.all(x is None for x in seq):
            return ndarray(seq, object_dt)
        if pandas and missing:
            if builtins.any(x is NaT for x in seq):
                return ndarray([cast_cell(x, dt64_dt) for x in seq], dt64_dt)
            return ndarray([cast_cell(x, float64_dt) for x in seq], float64_dt)
        return ndarray(seq, float64_dt) if not seq else ndarray(seq, object_dt)
    if pandas and missing and builtins.any(d.kind in "Mm" for d in dts):
        dts = [d for d in dts if d.kind in "Mm"] if builtins.all(
            d.kind in "Mmf" for d in dts) and builtins.all(
            d.kind != "f" or SymNum.of(x).nan is True
            for d, x in zip(dts, [s for s in seq if not (s is None or s is NaT or getattr(s, "_sx_na", False))])
        ) else dts
    if pandas and missing and builtins.all(d.kind == "i" for d in dts):
        dts = [float64_dt]
    if pandas and missing and builtins.all(d.kind == "b" for d in dts):
        return ndarray(seq, object_dt)
    dt = dts[0]
    for d in dts[1:]:
        if d == dt:
            continue
        if {d.kind, dt.kind} <= {"f", "i"} or (not pandas and {d.kind, dt.kind} <= {"f", "i", "b"}):
            dt = common_dtype([d, dt])
        else:
            dt = object_dt
            break
    if dt.kind == "O":
        return ndarray(seq, object_dt)
    return ndarray([cast_cell(x, dt) for x in seq], dt)


def is_seq(x):
    return (isinstance(x, (list, tuple, ndarray, range)) or hasattr(x, "_sx_array")
            or isinstance(x, (types.GeneratorType, map, zip)))


def asarray(x, dtype=None, copy=False):
    if isinstance(x, ndarray):
        a = x
    elif hasattr(x, "_sx_array"):
        a = x._sx_array()
    elif isinstance(x, (list, tuple, range)):
        x = [e.item() if isinstance(e, ndarray) and e.shape == () else e for e in x]
        if x and builtins.all(is_seq(e) for e in x):
            rows = [asarray(e) for e in x]
            if len({len(r) for r in rows}) != 1:
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
            d = common_dtype([r.dtype for r in rows])
            cells = [c for r in rows for c in convert_cells(r.cells, r.dtype, d)]
            a = ndarray(cells, d, (len(rows), len(rows[0])))
        else:
            a = infer_array(x)
    else:
        d = scalar_dtype(x)
        a = ndarray([cast_cell(x, d)], d, ())
    if dtype is not None and a.dtype != as_dtype(dtype):
        a = a.astype(dtype)
    elif copy and (a is x or hasattr(x, "_sx_array")):
        a = a.copy()
    return a


def array(x, dtype=None, copy=True, ndmin=0, **k):
    a = asarray(x, dtype, copy=copy)
    if ndmin == 1 and a.ndim == 0:
        a = a.reshape((1,))
    return a


def _pd(*xs):
    return builtins.any(hasattr(x, "_sx_ufunc") for x in xs)


def _dispatch(name, *xs):
    for x in xs:
        if hasattr(x, "_sx_ufunc"):
            return x._sx_ufunc(name, *xs)


# ------------------------------------------------------------------ reductions
def _by_axis(a, axis, f):
    """apply f(list of cells) along axis"""
    if axis is not None and axis < 0:
        axis += a.ndim
    if axis is None or a.ndim == 1:
        if axis not in (None, 0):
            raise ValueError("axis %s is out of bounds for array of dimension 1" % axis)
        return f(a.cells), None
    m, n = a.shape
    c = a.cells
    if axis == 0:
        return None, [f([c[i * n + j] for i in range(m)]) for j in range(n)]
    return None, [f(c[i * n:(i + 1) * n]) for i in range(m)]


def reduce_any(a, axis=None):
    if a.dtype.kind == "O":
        def f(cs):
            for c in cs:
                if c:
                    return SymBool(True)
            return SymBool(False)
    else:
        def f(cs):
            return SymBool(b_or(*[cast_cell(c, bool_dt).b for c in cs]))
    s, v = _by_axis(a, axis, f)
    return s if v is None else ndarray(v, bool_dt)


def reduce_all(a, axis=None):
    def f(cs):
        return SymBool(b_and(*[cast_cell(c, bool_dt).b for c in cs]))
    s, v = _by_axis(a, axis, f)
    return s if v is None else ndarray(v, bool_dt)


def sum_cells(cs, dt):
    if dt.kind == "O":
        if not cs:
            return 0
        r = cs[0]
        for c in cs[1:]:
            r = r + c
        return r
    r = SymNum(0, kind="i" if dt.kind in "ibm" else "f")
    for c in cs:
        r = r._add(_num(c))
    return r.with_(kind="i" if dt.kind in "ibm" else "f", np=True)


def _sum_dtype(dt):
    if dt.kind == "M":
        raise TypeError("cannot sum datetime64")
    return int64_dt if dt.kind == "b" else dt


def reduce_sum(a, axis=None):
    d = _sum_dtype(a.dtype)
    s, v = _by_axis(a, axis, lambda cs: sum_cells(cs, a.dtype))
    return box(s, d) if v is None else ndarray(v, d)


def reduce_mean(a, axis=None):
    def f(cs):
        if not cs:
            return nan_num()
        if a.dtype.kind == "O":
            return sum_cells(cs, a.dtype) / len(cs)
        return sum_cells(cs, a.dtype)._div(SymNum(len(cs)))
    d = a.dtype if a.dtype.kind in "mMO" else float64_dt
    s, v = _by_axis(a, axis, f)
    return box(s, d) if v is None else ndarray(v, d)


def minmax_cells(cs, dt, op):
    if not cs:
        raise ValueError("zero-size array to reduction operation %s which has no identity" % op)
    r = cs[0]
    for c in cs[1:]:
        r = cell_op(op, r, dt, c, dt, dt) if dt.kind != "b" else SymBool(
            b_or(r.b, c.b) if op == "maximum" else b_and(r.b, c.b))
    return r


def reduce_minmax(a, axis, op):
    s, v = _by_axis(a, axis, lambda cs: minmax_cells(cs, a.dtype, op))
    return box(s, a.dtype) if v is None else ndarray(v, a.dtype)


def median_cells(cs):
    if not cs:
        return nan_num()
    cs = [_num(c) for c in cs]
    nan = b_or(*[c.nan for c in cs])
    if SymBool(nan):
        return nan_num()
    cs = [c.with_(nan=False) for c in cs]
    o = [cs[i] for i in stable_argsort(cs, float64_dt)]
    n = len(o)
    if n % 2:
        return o[n // 2].with_(kind="f")
    return o[n // 2 - 1]._add(o[n // 2])._div(SymNum(2))


def quick_nanfilter(cs):
    return [c for c in cs if not SymBool(_num(c).nan)]


def argext(a, op, skipna=False):
    cs = [_num(c) for c in asarray(a).cells]
    if not cs:
        raise ValueError("attempt to get argmax of an empty sequence")
    best = 0
    for i in range(len(cs)):
        if SymBool(cs[i].nan):
            return SymNum(i, kind="i")
    for i in range(1, len(cs)):
        l = cs[best]._lt(cs[i]) if op == "maximum" else cs[i]._lt(cs[best])
        if SymBool(l):
            best = i
    return SymNum(best, kind="i")


# ------------------------------------------------------------------ ufuncs
class ufunc:
    def __init__(self, name, op):
        self.__name__ = name
        self.op = op
        self.nin = 2

    def __call__(self, a, b, out=None, where=True, dtype=None, casting=None):
        if where is not True:
            raise Unsupported("ufunc where=")
        if _pd(a, b):
            return _dispatch(self.op, a, b)
        x, y = _toarr(a), _toarr(b)
        r = elementwise(self.op, x, y)
        if isinstance(out, ndarray):
            out._assign(list(out.pos), r)
            return out
        return r

    def reduce(self, a, axis=0, **k):
        a = asarray(a)
        if self.op == "add":
            return reduce_sum(a, axis)
        if self.op in ("maximum", "minimum"):
            return reduce_minmax(a, axis, self.op)
        if self.op == "logical_or":
            return reduce_any(a, axis)
        if self.op == "logical_and":
            return reduce_all(a, axis)

        def f(cs):
            r, d = cs[0], a.dtype
            for c in cs[1:]:
                dt = result_dtype(self.op, d, a.dtype)
                r = cell_op(self.op, r, d, c, a.dtype, dt)
                d = dt
            f.dt = d
            return r
        f.dt = a.dtype
        s, v = _by_axis(a, axis, f)
        return box(s, f.dt) if v is None else ndarray(v, f.dt)

    def accumulate(self, a, axis=0, **k):
        a = asarray(a)
        if self.op == "add":
            return cumsum(a)
        out = []
        for c in a.cells:
            out.append(c if not out else cell_op(self.op, out[-1], a.dtype, c, a.dtype, a.dtype))
        return ndarray(out, a.dtype)

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self(a.reshape((len(a), 1)), b)

    def __repr__(self):
        return "<ufunc %s>" % self.__name__


class ufunc1:
    """unary ufunc on cells; f(cell, dtype) -> cell"""

    def __init__(self, name, f, out):
        self.__name__ = name
        self.f, self.out = f, out

    def __call__(self, a, out=None, **k):
        if _pd(a):
            return _dispatch(self, a)
        x = _toarr(a)
        return _scalarize(self.apply(x))

    def apply(self, x):
        d = self.out if isinstance(self.out, DType) else self.out(x.dtype)
        return ndarray([self.f(c, x.dtype) for c in x.cells], d, x.shape)


def _toarr(a):
    if isinstance(a, ndarray):
        return a
    if is_seq(a):
        return asarray(a)
    s = scalar_array(a)
    if s is None:
        return ndarray([a], object_dt, ())
    return s


def _f_isnan(c, dt):
    if dt.kind == "O":
        raise TypeError(
            "ufunc 'isnan' not supported for the input types, and the inputs could not be safely "
            "coerced to any supported types according to the casting rule ''safe''")
    return SymBool(is_nan_cell(c))


def _f_isinf(c, dt):
    if dt.kind == "O":
        raise TypeError("ufunc 'isinf' not supported for the input types")
    if dt.kind in "Mm" or isinstance(c, SymBool):
        return SymBool(False)
    return SymBool(c.isinf())


def _f_isfinite(c, dt):
    if dt.kind == "O":
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    if isinstance(c, SymBool):
        return SymBool(True)
    return SymBool(c.isfinite())


def _f_not(c, dt):
    return SymBool(b_not(cast_cell(c, bool_dt).b))


def _numout(d):
    return d if d.kind in "fim" else float64_dt


def _need_num(name, f):
    def g(c, dt):
        if dt.kind == "O":
            raise TypeError("loop of ufunc does not support argument 0 of type object which has no "
                            "callable %s method" % name)
        return f(_num(c), dt)
    return g


def _f_sqrt(c, dt):
    return E.sqrt(c.with_(kind="f", np=True))


def _f_sign(c, dt):
    return SymNum(E.r_ite(r_lt(0, c.r), 1, E.r_ite(r_lt(c.r, 0), -1, 0)), nan=c.nan, kind=c.kind)


isnan = ufunc1("isnan", _f_isnan, bool_dt)
isinf = ufunc1("isinf", _f_isinf, bool_dt)
isfinite = ufunc1("isfinite", _f_isfinite, bool_dt)
logical_not = ufunc1("logical_not", _f_not, bool_dt)
sqrt = ufunc1("sqrt", _need_num("sqrt", _f_sqrt), float64_dt)
square = ufunc1("square", _need_num("square", lambda c, dt: c._mul(c)), _numout)
absolute = ufunc1("absolute", _need_num("abs", lambda c, dt: abs(c)), _numout)
negative = ufunc1("negative", _need_num("neg", lambda c, dt: c._neg()), _numout)
sign = ufunc1("sign", _need_num("sign", _f_sign), _numout)
floor = ufunc1("floor", _need_num("floor", lambda c, dt: c.with_(r=E.r_floor(c.r), np=True)), _numout)
ceil = ufunc1(
    "ceil",
    _need_num("ceil", lambda c, dt: c.with_(r=E.r_neg(E.r_floor(E.r_neg(c.r))), np=True)), _numout)

add = ufunc("add", "add")
subtract = ufunc("subtract", "sub")
multiply = ufunc("multiply", "mul")
divide = true_divide = ufunc("divide", "truediv")
floor_divide = ufunc("floor_divide", "floordiv")
power = ufunc("power", "pow")
mod = remainder = ufunc("remainder", "mod")
less = ufunc("less", "lt")
less_equal = ufunc("less_equal", "le")
greater = ufunc("greater", "gt")
greater_equal = ufunc("greater_equal", "ge")
equal = ufunc("equal", "eq")
not_equal = ufunc("not_equal", "ne")
logical_and = ufunc("logical_and", "logical_and")
logical_or = ufunc("logical_or", "logical_or")
logical_xor = ufunc("logical_xor", "logical_xor")
bitwise_and = ufunc("bitwise_and", "and")
bitwise_or = ufunc("bitwise_or", "or")
bitwise_xor = ufunc("bitwise_xor", "xor")
maximum = ufunc("maximum", "maximum")
minimum = ufunc("minimum", "minimum")
fmax = ufunc("fmax", "fmax")
fmin = ufunc("fmin", "fmin")


def invert(a):
    return ~a


# ------------------------------------------------------------------ functions
def append(a, v, axis=None):
    a, v = _toarr(a).ravel(), _toarr(v).ravel()
    return concatenate([a, v])


def concatenate(seq, axis=0, **k):
    arrs = [asarray(a) for a in seq]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    for a in arrs:
        if a.ndim == 0:
            raise ValueError("zero-dimensional arrays cannot be concatenated")
    d = common_dtype([a.dtype for a in arrs])
    if builtins.any(a.dtype.tz is not None for a in arrs if isinstance(a.dtype, DType)):
        raise Unsupported("tz dtype in ndarray")
    if arrs[0].ndim == 2:
        if axis == 0:
            cells = [c for a in arrs for c in convert_cells(a.cells, a.dtype, d)]
            return ndarray(cells, d, (builtins.sum(a.shape[0] for a in arrs), arrs[0].shape[1]))
        raise Unsupported("concatenate axis=1")
    return ndarray([c for a in arrs for c in convert_cells(a.cells, a.dtype, d)], d)


def hstack(seq):
    return concatenate([_toarr(a).ravel() for a in seq])


def vstack(seq):
    return asarray([asarray(a) for a in seq])


def stack(seq, axis=0):
    a = asarray([asarray(a) for a in seq])
    return a if axis == 0 else a.T


column_stack = lambda seq: vstack(seq).T


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarray(a)
    if prepend is not None:
        a = concatenate([_toarr(prepend).ravel(), a])
    if append is not None:
        a = concatenate([a, _toarr(append).ravel()])
    for _ in range(n):
        a = a[1:] - a[:-1] if a.dtype.kind != "b" else a[1:] != a[:-1]
    return a


def ediff1d(a):
    return diff(a)


def cumsum(a, axis=None, **k):
    if _pd(a):
        return a.cumsum()
    a = asarray(a)
    out, r = [], SymNum(0, kind="i")
    if a.dtype.kind == "O":
        for c in a.cells:
            out.append(c if not out else out[-1] + c)
        return ndarray(out, object_dt)
    for c in a.cells:
        r = r._add(_num(c))
        out.append(r.with_(kind="f" if a.dtype.kind == "f" else "i", np=True))
    return ndarray(out, int64_dt if a.dtype.kind == "b" else a.dtype)


def where(cond, x=None, y=None):
    c = _toarr(cond)
    if x is None and y is None:
        return c.nonzero()
    x, y = _toarr(x), _toarr(y)
    d = common_dtype([x.dtype, y.dtype])
    cc, xx, shape = broadcast(c, x)
    x2 = ndarray(xx, x.dtype, shape)
    c2 = ndarray(cc, c.dtype, shape)
    _, yy, shape2 = broadcast(x2, y)
    if shape2 != shape:
        cc, _, _ = broadcast(c2, y)
        xx, _, _ = broadcast(x2, y)
    xx, yy = convert_cells(xx, x.dtype, d), convert_cells(yy, y.dtype, d)
    return ndarray([ite_cell(cast_cell(b, bool_dt).b, p, q, d) for b, p, q in zip(cc, xx, yy)], d, shape2)


def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


def nan_to_num(a, nan=0.0, **k):
    return where(isnan(a), nan, a)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True):
    if return_index or return_inverse or return_counts:
        raise Unsupported("np.unique extra returns")
    if hasattr(a, "_sx_unique"):
        pass
    a = asarray(a).ravel()
    cs, dt = a.cells, a.dtype
    o = [cs[i] for i in stable_argsort(cs, dt)]
    out = []
    for c in o:
        if out and cells_equal(out[-1], c, dt, equal_nan=True):
            continue
        out.append(c)
    return ndarray(out, dt)


def sort(a, axis=-1, **k):
    a = asarray(a)
    cs = a.cells
    return ndarray([cs[i] for i in stable_argsort(cs, a.dtype)], a.dtype)


def argsort(a, **k):
    return asarray(a).argsort()


def lexsort(keys):
    raise Unsupported("lexsort")


def searchsorted(a, v, side="left", sorter=None):
    if hasattr(a, "_sx_searchsorted"):
        return a._sx_searchsorted(v, side)
    a = asarray(a)
    scalar = not is_seq(v)
    vv = _toarr(v)
    if a.dtype.kind == "M" and vv.dtype.kind == "M" and vv.dtype.tz is not None:
        # numpy turns an aware Timestamp into an object array
        vv = ndarray([box(c, vv.dtype, True) for c in vv.cells], object_dt, vv.shape)
    if a.dtype.kind in "Mm" and vv.dtype.kind not in ("O", a.dtype.kind):
        raise TypeError("invalid type promotion")
    if vv.dtype.kind in "Mm" and a.dtype.kind not in ("O", vv.dtype.kind):
        raise TypeError("invalid type promotion")
    cs = a.cells

    def find(x, dx):
        obj = a.dtype.kind == "O" or dx.kind == "O"
        for i, c in enumerate(cs):
            if obj:
                cc, xx = box(c, a.dtype), box(x, dx)
                stop = (not (cc < xx)) if side == "left" else (xx < cc)
            elif side == "left":
                stop = not cells_cmp_lt(c, x, a.dtype)
            else:
                stop = bool(cells_cmp_lt(x, c, a.dtype))
            if stop:
                return SymNum(i, kind="i")
        return SymNum(len(cs), kind="i")

    out = [find(c, vv.dtype) for c in vv.cells]
    if scalar or vv.shape == ():
        return out[0]
    return ndarray(out, int64_dt)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


def ones(shape, dtype=None):
    return full(shape, 1.0 if dtype is None else 1, dtype)


def zeros(shape, dtype=None):
    return full(shape, 0.0 if dtype is None else 0, dtype)


empty = zeros


def _shape(s):
    if isinstance(s, (int, SymNum)):
        return (int(s),)
    return tuple(int(x) for x in s)


def full(shape, v, dtype=None):
    shape = _shape(shape)
    d = as_dtype(dtype) if dtype is not None else scalar_dtype(v)
    n = 1
    for s in shape:
        n *= s
    if d.kind == "O" and dtype is not None and isinstance(v, (int, float)):
        v = None if v == 0 else v
    return ndarray([cast_cell(v, d)] * n, d, shape)


def _like(a, v, dtype):
    a = asarray(a)
    d = as_dtype(dtype) if dtype is not None else a.dtype
    if d.kind in "Mm" and dtype is None:
        raise Unsupported("ones_like datetime")
    return full(a.shape, v, d)


def ones_like(a, dtype=None, **k):
    return _like(a, 1, dtype)


def zeros_like(a, dtype=None, **k):
    return _like(a, 0, dtype)


empty_like = zeros_like


def full_like(a, v, dtype=None, **k):
    return _like(a, v, dtype)


def arange(*a, **k):
    return asarray(list(builtins.range(*[_op.index(x) for x in a])) or []).astype(int64_dt)


def linspace(start, stop, num=50, endpoint=True, **k):
    n = _op.index(num)
    div = (n - 1) if endpoint else n
    s, t = SymNum.of(start), SymNum.of(stop)
    out = []
    for i in builtins.range(n):
        out.append((s + (t - s) * E.Fraction(i, div or 1)).with_(kind="f", np=True))
    return ndarray(out, float64_dt)


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("2-d dot")
    if len(a) != len(b):
        raise ValueError("shapes not aligned")
    if "O" in (a.dtype.kind, b.dtype.kind):
        r = None
        for x, y in zip(a, b):
            r = x * y if r is None else r + x * y
        return r
    return reduce_sum(a * b)


inner = vdot = dot


def _red(f, name):
    def g(a, axis=None, **k):
        if hasattr(a, "_sx_ufunc") and axis in (None, 0) and hasattr(a, name):
            return getattr(a, name)()
        return f(asarray(a), axis)
    g.__name__ = name
    return g


sum = _red(reduce_sum, "sum")
mean = _red(reduce_mean, "mean")
min = amin = _red(lambda a, ax: reduce_minmax(a, ax, "minimum"), "min")
max = amax = _red(lambda a, ax: reduce_minmax(a, ax, "maximum"), "max")
any = _red(reduce_any, "any")
all = _red(reduce_all, "all")


def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    a, w = asarray(a), asarray(weights)
    return reduce_sum(a * w) / reduce_sum(w)


def median(a, axis=None):
    a = asarray(a)
    if a.dtype.kind == "O":
        raise Unsupported("object median")
    s, v = _by_axis(a, axis, median_cells)
    return s if v is None else ndarray(v, float64_dt)


def _nanskip(red):
    def g(a, axis=None):
        a = asarray(a)
        s, v = _by_axis(a, axis, lambda cs: red([_num(c) for c in cs]))
        return s if v is None else ndarray(v, float64_dt)
    return g


def _zero_nan(c):
    return c.with_(nan=False, r=E.r_ite(c.nan, 0, c.r))


nansum = _nanskip(lambda cs: sum_cells([_zero_nan(c) for c in cs], float64_dt))
nanmean = _nanskip(lambda cs: sum_cells([_zero_nan(c) for c in cs], float64_dt)._div(
    sum_cells([SymNum(E.r_ite(c.nan, 0, 1)) for c in cs], float64_dt)))


def _nm(op):
    def f(cs):
        r = cs[0]
        for c in cs[1:]:
            r = cell_op(op, r, float64_dt, c, float64_dt, float64_dt)
        return r
    return f


nanmax = _nanskip(_nm("fmax"))
nanmin = _nanskip(_nm("fmin"))
nanmedian = _nanskip(lambda cs: median_cells(quick_nanfilter(cs)))


def prod(a, axis=None):
    a = asarray(a)

    def f(cs):
        r = SymNum(1)
        for c in cs:
            r = r._mul(_num(c))
        return r
    s, v = _by_axis(a, axis, f)
    return s if v is None else ndarray(v, a.dtype)


def var(a, axis=None):
    a = asarray(a)
    m = mean(a)
    return mean((a - m) * (a - m))


def std(a, axis=None):
    return sqrt(var(a))


def argmax(a, axis=None):
    return argext(asarray(a), "maximum")


def argmin(a, axis=None):
    return argext(asarray(a), "minimum")


def nonzero(a):
    return asarray(a).nonzero()


def flatnonzero(a):
    return asarray(a).nonzero()[0]


def count_nonzero(a):
    return reduce_sum(asarray(a).astype(bool_dt))


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.cells, b.cells):
        if not cells_equal(x, y, a.dtype, equal_nan):
            return False
    return True


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not _pd(a, b):
        a, b = _toarr(a), _toarr(b)
    d = absolute(subtract(a, b))
    r = less_equal(d, add(atol, multiply(rtol, absolute(b))))
    if equal_nan:
        r = logical_or(r, logical_and(isnan(a), isnan(b)))
    return r


def allclose(a, b, **k):
    return bool(all(isclose(a, b, **k)))


def isin(a, vals, **k):
    a, vals = asarray(a), asarray(vals)
    return ndarray([SymBool(b_or(*[cells_equal(c, v, a.dtype).b for v in vals.cells]))
                    for c in a.cells], bool_dt)


in1d = isin


def union1d(a, b):
    return unique(concatenate([asarray(a), asarray(b)]))


def intersect1d(a, b):
    a, b = unique(a), unique(b)
    return a[isin(a, b)]


def setdiff1d(a, b):
    a = unique(a)
    return a[~isin(a, b)]


def insert(a, i, v):
    a = asarray(a)
    i = _op.index(i)
    return concatenate([a[:i], _toarr(v).ravel(), a[i:]])


def delete(a, i):
    a = asarray(a)
    i = _op.index(i) % len(a)
    return concatenate([a[:i], a[i + 1:]])


def repeat(a, n, axis=None):
    a = _toarr(a).ravel()
    if is_seq(n):
        return ndarray([c for c, m in zip(a.cells, n) for _ in builtins.range(_op.index(m))], a.dtype)
    return a.repeat(_op.index(n))


def tile(a, n):
    a = _toarr(a).ravel()
    return ndarray(a.cells * _op.index(n), a.dtype)


def flip(a, axis=None):
    return asarray(a)[::-1]


def roll(a, n):
    a = asarray(a)
    n %= len(a)
    return concatenate([a[-n:], a[:-n]]) if n else a.copy()


def atleast_1d(a):
    a = _toarr(a)
    return a.reshape((1,)) if a.ndim == 0 else a


def squeeze(a):
    a = asarray(a)
    return a.reshape((a.size,))


def take(a, i, axis=None):
    return asarray(a)[i]


def isscalar(x):
    return isinstance(x, (int, float, str, SymNum, SymBool, DT64, TD64))


def ndim(a):
    return _toarr(a).ndim


def shape(a):
    return _toarr(a).shape


def size(a):
    return _toarr(a).size


def may_share_memory(a, b):
    return asarray(a).buf is asarray(b).buf


shares_memory = may_share_memory


def interp(*a, **k):
    raise Unsupported("np.interp")


def histogram(*a, **k):
    raise Unsupported("np.histogram")


def percentile(*a, **k):
    raise Unsupported("np.percentile")


def vectorize(f, **k):
    def g(*arrs):
        arrs = [asarray(a) for a in arrs]
        return asarray([f(*xs) for xs in zip(*arrs)])
    return g


def fromiter(it, dtype=None, count=-1):
    return asarray(list(it), dtype)


def apply_along_axis(f, axis, a, *args):
    a = asarray(a)
    if axis == 0:
        a = a.T
    return asarray([f(r, *args) for r in a])


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


def nditer(*a, **k):
    raise Unsupported("nditer")


def can_cast(*a, **k):
    raise Unsupported("can_cast")


def ravel(a):
    return asarray(a).ravel()


def asanyarray(a, dtype=None):
    return asarray(a, dtype)


ascontiguousarray = asanyarray


def copy(a):
    return asarray(a).copy()


def clip(a, lo, hi):
    return minimum(maximum(a, lo), hi)


def triu_indices(*a, **k):
    raise Unsupported("triu_indices")


def cumprod(a, **k):
    raise Unsupported("cumprod")


def put(a, i, v):
    a[i] = v


def copyto(dst, src, where=True):
    if where is True:
        dst[:] = src
    else:
        dst[where] = src


def putmask(a, m, v):
    a[m] = v


# ------------------------------------------------------------------ scalar types
class _NumMeta(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._real) if cls._real else c is cls

    def __getattr__(cls, k):
        if cls._real and not k.startswith("__"):
            return getattr(cls._real, k)
        raise AttributeError(k)

    # type identity is what matters to code that compares or hashes the builtin
    def __eq__(cls, o):
        return cls is o or (cls._real is not None and o is cls._real)

    def __hash__(cls):
        return hash(cls._real)


class SFloat(metaclass=_NumMeta):
    """replacement of builtins.float inside the modules under test"""

    _real = float
    __name__ = "float"

    @staticmethod
    def _inst(x):
        return isinstance(x, builtins.float) or (isinstance(x, SymNum) and x.kind == "f")

    def __new__(cls, x=0.0):
        if isinstance(x, str):
            x = builtins.float(x)
        if isinstance(x, ndarray):
            x = x.item()
        n = SymNum.of(x)
        if n is None:
            if hasattr(x, "_sx_array"):
                return cls(x._sx_array())
            raise TypeError("float() argument must be a string or a real number, not %r" % type(x).__name__)
        return n.with_(kind="f", np=False)


class SInt(metaclass=_NumMeta):
    _real = int

    @staticmethod
    def _inst(x):
        return (isinstance(x, builtins.int)
                or (isinstance(x, SymNum) and x.kind == "i" and not x.np)
                or (isinstance(x, SymBool) and not x.np))

    def __new__(cls, x=0, *a):
        if isinstance(x, str):
            return builtins.int(x, *a)
        n = SymNum.of(x)
        if n is None:
            return builtins.int(x)
        if n.is_concrete() and n.kind == "i":
            return builtins.int(n.r)
        if n.kind == "i":
            return n.with_(np=False)
        return n.__trunc__()


class SBoolType(metaclass=_NumMeta):
    _real = bool

    @staticmethod
    def _inst(x):
        return isinstance(x, builtins.bool) or (isinstance(x, SymBool) and not x.np)

    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return SymBool(x.b, np=False)
        if isinstance(x, SymNum):
            return SymBool(cast_cell(x, bool_dt).b, np=False)
        return builtins.bool(x)


class _NpMeta(_NumMeta):
    def __call__(cls, x=0):
        return cls._make(x)


class np_float64(metaclass=_NpMeta):
    _real = None

    @staticmethod
    def _inst(x):
        return isinstance(x, SymNum) and x.np and x.kind == "f"

    @staticmethod
    def _make(x=0.0):
        if isinstance(x, str):
            x = builtins.float(x)
        return SymNum.of(x).with_(kind="f", np=True)


class np_int64(metaclass=_NpMeta):
    _real = None

    @staticmethod
    def _inst(x):
        return isinstance(x, SymNum) and x.np and x.kind == "i"

    @staticmethod
    def _make(x=0):
        return cast_cell(x, int64_dt)


class np_bool_(metaclass=_NpMeta):
    _real = None

    @staticmethod
    def _inst(x):
        return isinstance(x, SymBool) and x.np

    @staticmethod
    def _make(x=False):
        return cast_cell(x, bool_dt)


class np_number(metaclass=_NpMeta):
    _real = None

    @staticmethod
    def _inst(x):
        return isinstance(x, SymNum) and x.np

    @staticmethod
    def _make(x=0):
        raise TypeError("abstract")


class np_generic(metaclass=_NpMeta):
    _real = None

    @staticmethod
    def _inst(x):
        return (isinstance(x, (SymNum, SymBool)) and x.np) or isinstance(x, (DT64, TD64))

    @staticmethod
    def _make(x=0):
        raise TypeError("abstract")


def build_module():
    g = globals()
    m = types.ModuleType("numpy")
    skip = {"E", "sys", "types", "builtins", "SymBool", "SymNum", "Unsupported"}
    for k, v in g.items():
        if k.startswith("_") or k in skip:
            continue
        setattr(m, k, v)
    m.nan = m.NaN = m.NAN = NAN
    m.inf = m.Inf = m.PINF = float("inf")
    m.NINF = float("-inf")
    m.newaxis = None
    m.pi, m.e = 3.141592653589793, 2.718281828459045
    m.float64 = m.float_ = m.double = m.float32 = np_float64
    m.int64 = m.int_ = m.intp = m.int32 = np_int64
    m.bool_ = np_bool_
    m.number = m.np_number
    m.floating, m.integer = np_float64, np_int64
    m.generic = np_generic
    m.datetime64, m.timedelta64 = DT64, TD64
    m.object_ = object
    m.abs = absolute
    m.dtype = NpDtype
    m.ufunc = ufunc
    m.__version__ = "1.26.4"
    m.set_printoptions = lambda **k: None
    r = types.ModuleType("numpy.random")

    def _no(*a, **k):
        raise Unsupported("numpy.random")
    r.default_rng = r.RandomState = r.rand = _no
    m.random = r
    t = types.ModuleType("numpy.testing")

    def assert_array_equal(a, b, **k):
        assert array_equal(a, b, equal_nan=True)

    t.assert_array_equal = assert_array_equal
    t.assert_allclose = lambda a, b, rtol=1e-7, **k: None if allclose(a, b, rtol=rtol) else _fail()
    m.testing = t

    def __getattr__(k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in KNOWN_NUMPY:
            raise Unsupported("numpy.%s" % k)
        raise AttributeError("module 'numpy' has no attribute %r" % k)

    m.__getattr__ = __getattr__
    m.__path__ = []
    return m, {"numpy.random": r, "numpy.testing": t}


def _fail():
    raise AssertionError


try:
    from .known_names import KNOWN_NUMPY
except ImportError:
    KNOWN_NUMPY = set()


def _zero_dim(x):
    return asarray(x)


SymNum.zero_dim = staticmethod(_zero_dim)
