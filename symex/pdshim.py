"""Symbolic model of the part of pandas that staircase (and likely edits of it) use.

Semantics follow pandas 2.2 without copy-on-write: `.iloc[a:b]`, `frame["col"]` and
`.values` are views, boolean/label selection and arithmetic copy, `.loc[new] = v` enlarges
the Series object it is called on (only)."""
import builtins
import numbers
import operator as _op
import types

from . import engine as E
from . import npshim as N
from .engine import (
    NAN, SymBool, SymNum, Unsupported, b_and, b_iff, b_not, b_or, ite_num, r_eq, r_ite,
)
from .npshim import (
    ARITH, BITS, CMP, LOGIC, DType, as_dtype, asarray, bool_dt, box, cast_cell, cell_op,
    cells_cmp_lt, cells_equal, common_dtype, convert_cells, dt64_dt, elementwise, float64_dt,
    int64_dt, is_nan_cell, is_seq, ite_cell, nan_num, ndarray, object_dt, pd_scalar_dtype,
    result_dtype, stable_argsort, td64_dt, tz_dt, ufunc, ufunc1,
)
from .scalars import (
    DT64, NaT, NaTType, PyDatetime, PyTimedelta, TD64, Timedelta, Timestamp, as_tz,
    dt_payload, is_duration, is_instant, localize_ns, td_payload, tz_key, wall_ns,
)


class NAType:
    _sx_na = True

    def _na(self, *a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __eq__ = _na
    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _na

    def __bool__(self):
        raise TypeError("boolean value of NA is ambiguous")

    def __hash__(self):
        return 7

    def __repr__(self):
        return "<NA>"


NA = NAType()


class _NoDefault:
    pass


no_default = _NoDefault()


# ------------------------------------------------------------------ extension types
class ExtensionDtype:
    _sx_extdtype = True
    kind = "O"
    tz = None
    na_value = NAN
    name = ""

    def __eq__(self, o):
        if isinstance(o, str):
            try:
                o = self.construct_from_string(o)
            except TypeError:
                return False
        return type(o) is type(self)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return self.name

    __repr__ = __str__

    @classmethod
    def construct_from_string(cls, s):
        if s == cls.name:
            return cls()
        raise TypeError


class ExtensionArray:
    _sx_defer = True

    def _sx_array(self):
        return ndarray(list(self), object_dt)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    @property
    def shape(self):
        return (len(self),)

    @property
    def size(self):
        return len(self)

    ndim = 1

    def to_numpy(self, *a, **k):
        return self._sx_array()

    def astype(self, dtype, copy=True):
        d = resolve_dtype(dtype)
        if d == self.dtype:
            return self.copy() if copy else self
        if d.kind == "O" and not getattr(d, "_sx_extdtype", False):
            return self._sx_array()
        raise Unsupported("ExtensionArray.astype")

    def view(self, dtype=None):
        return self[:]

    def dropna(self):
        return self[~self.isna()]

    def fillna(self, *a, **k):
        raise Unsupported("ExtensionArray.fillna")

    def equals(self, o):
        return type(o) is type(self) and len(o) == len(self) and all(
            a is b or bool(a == b) for a, b in zip(self, o))

    def unique(self):
        raise Unsupported("ExtensionArray.unique")

    def __eq__(self, o):
        raise NotImplementedError

    def __ne__(self, o):
        return ~(self == o)

    def __repr__(self):
        return "<%s>" % type(self).__name__

    @property
    def T(self):
        return self

    def ravel(self, *a):
        return self


_registered_dtypes = []


def register_extension_dtype(cls):
    _registered_dtypes.append(cls)
    return cls


def resolve_dtype(d):
    """pandas dtype lookup (numpy dtypes, tz dtypes, registered extension dtypes)"""
    if isinstance(d, str):
        for c in reversed(_registered_dtypes):
            try:
                return c.construct_from_string(d)
            except TypeError:
                continue
    if isinstance(d, type) and issubclass(d, ExtensionDtype):
        return d()
    if d in ("str", str):
        return object_dt
    return as_dtype(d)


def is_ea(a):
    return isinstance(a, ExtensionArray)


def ea_take(data, indices, allow_fill=False, fill_value=None, axis=0):
    a = asarray(data)
    idx = [_op.index(i) for i in asarray(indices)]
    if not allow_fill:
        return ndarray([a.cells[i] for i in idx], a.dtype)
    out, dt = [], a.dtype
    if dt.kind != "O" and any(i < 0 for i in idx):
        dt = float64_dt if dt.kind in "fi" else object_dt
    if any(i < -1 for i in idx):
        raise ValueError("'indices' contains values less than allowed (%d < -1)" % min(idx))
    if fill_value is None:
        fill_value = NAN
    for i in idx:
        if i == -1:
            out.append(cast_cell(fill_value, dt))
        else:
            if i >= len(a):
                raise IndexError("out of bounds value in 'indices'.")
            out.append(a.cells[i] if dt == a.dtype else box(a.cells[i], a.dtype))
    return ndarray(out, dt)


# ------------------------------------------------------------------ arrays
def infer(seq):
    return N.infer_array(list(seq), pandas=True)


def infer_objects(a):
    """object ndarray -> datetime-like dtype when every cell is (pandas Series/Index inference)"""
    if a.dtype.kind != "O" or not len(a):
        return a
    if any(is_instant(c) or is_duration(c) for c in a.cells):
        r = infer(a.cells)
        if r.dtype.kind in "Mm":
            return r
    return a


def infer_all(a):
    """lib.maybe_convert_objects + datetime inference"""
    if a.dtype.kind != "O" or not len(a):
        return a
    if any(getattr(c, "_sx_stairs", False) for c in a.cells):
        return a
    return infer(a.cells)


def arr_take(a, idx):
    """idx list of python ints; copy"""
    if is_ea(a):
        return a.take(N.asarray(list(idx)) if idx else ndarray([], int64_dt))
    b, p = a.buf, a.pos
    return ndarray([b[p[i]] for i in idx], a.dtype)


def arr_take_fill(a, idx, fill=NAN):
    """idx list of int|None -> missing"""
    if is_ea(a):
        return a.take(N.asarray([-1 if i is None else i for i in idx]), allow_fill=True)
    if None not in idx:
        return arr_take(a, idx)
    dt = promote(a.dtype, fill)
    cs = convert_cells(a.cells, a.dtype, dt, True)
    fc = cast_cell(fill, dt) if dt.kind != "O" else fill
    return ndarray([fc if i is None else cs[i] for i in idx], dt)


def promote(dt, v):
    """dtype able to hold dt's values and scalar v (maybe_promote)"""
    k = dt.kind
    if k == "O":
        return dt
    missing = v is None or v is NaT or v is NA
    n = None if isinstance(v, (SymBool, bool)) else SymNum.of(v)
    if n is not None and n.kind == "f" and n.nan is True:
        missing = True
    if k in "Mm":
        if missing:
            return dt
        d = pd_scalar_dtype(v)
        return dt if d == dt else object_dt
    if missing and v is not NaT:
        return {"f": dt, "i": float64_dt, "b": object_dt}[k]
    if k == "b":
        return dt if isinstance(v, (SymBool, bool)) else object_dt
    if isinstance(v, (SymBool, bool)) or n is None:
        return object_dt
    if k == "f":
        return dt
    # int column
    if n.kind == "i":
        return dt
    if n.is_concrete() and not n.nan and not n.pinf and not n.ninf and isinstance(n.r, int):
        return dt
    if bool(SymBool(b_and(n.isfinite(), E.r_isint(n.r)))):
        return dt
    return float64_dt


def arr_isna(a):
    if is_ea(a):
        return asarray(a.isna())
    return ndarray([SymBool(is_nan_cell(c)) for c in a.cells], bool_dt, a.shape)


def concat_arrays(arrs):
    if any(is_ea(a) for a in arrs):
        if all(is_ea(a) for a in arrs):
            return type(arrs[0])._concat_same_type(arrs)
        raise Unsupported("concat of mixed extension arrays")
    ne = [a for a in arrs if len(a)] or arrs[:1]
    d = common_dtype([a.dtype for a in ne], pandas=True)
    return ndarray([c for a in ne for c in convert_cells(a.cells, a.dtype, d, True)], d)


def sanitize(data, dtype=None, n=None, copy=False):
    """Series constructor data -> array (view when pandas would not copy)"""
    if dtype is not None:
        dtype = resolve_dtype(dtype)
        if getattr(dtype, "_sx_extdtype", False):
            if isinstance(data, Series):
                data = data.arr
            if is_ea(data) and data.dtype == dtype:
                return data
            if isinstance(data, Index):
                data = list(data)
            return dtype.construct_array_type()._from_sequence(data, dtype=dtype)
    if isinstance(data, Series):
        data = data.arr
        if is_ea(data):
            if dtype is not None:
                return data.astype(dtype)
            return data
    elif isinstance(data, Index):
        data = data.arr.copy()
    if is_ea(data):
        return data.astype(dtype) if dtype is not None else data
    if isinstance(data, ndarray) and data.ndim == 0:
        data = box(data.buf[data.pos[0]], data.dtype)
    if isinstance(data, ndarray):
        if data.ndim != 1:
            raise ValueError("Data must be 1-dimensional")
        a = data.view() if not copy else data.copy()
        if dtype is None:
            return infer_objects(a)
        return pd_astype(a, dtype) if a.dtype != dtype else a
    if isinstance(data, (set, frozenset)):
        raise TypeError("Set type is unordered")
    if is_seq(data) or hasattr(data, "__iter__") and not isinstance(data, (str, dict)) and not (
            isinstance(data, tuple(x for x in (Timestamp,)))):
        data = list(data)
        if dtype is not None:
            if not data:
                return ndarray([], dtype)
            return pd_astype(infer(data) if dtype.kind != "O" else ndarray(data, object_dt), dtype)
        if not data:
            return ndarray([], object_dt)
        return infer(data)
    # scalar
    n = 1 if n is None else n
    if data is None:
        return ndarray([None] * n, object_dt) if dtype is None else ndarray(
            [cast_cell(None, dtype) if dtype.kind != "O" else None] * n, dtype)
    a = infer([data])
    if dtype is not None:
        a = pd_astype(a, dtype)
    return ndarray(a.cells * n, a.dtype)


def pd_astype(a, dtype):
    d = resolve_dtype(dtype)
    if is_ea(a):
        return a.astype(d)
    if getattr(d, "_sx_extdtype", False):
        return d.construct_array_type()._from_sequence(list(a), dtype=d)
    if a.dtype == d:
        return a.copy()
    if d.kind == "O":
        return ndarray([box(c, a.dtype, True) for c in a.cells], d)
    if d.kind == "i" and a.dtype.kind == "f":
        for c in a.cells:
            if bool(SymBool(b_not(c.isfinite()))):
                raise ValueError("Cannot convert non-finite values (NA or inf) to integer")
    if a.dtype.kind in "Mm" and d.kind == "i":
        return ndarray([c.with_(kind="i") for c in a.cells], d)
    if a.dtype.kind == "M" and d.kind == "M":
        if a.dtype.tz is None or d.tz is None:
            raise TypeError("Cannot use .astype to convert between timezone-aware and naive")
        return ndarray(a.cells, d)
    if a.dtype.kind in "Mm" or (d.kind in "Mm" and a.dtype.kind == "b"):
        raise TypeError("cannot astype %s to %s" % (a.dtype, d))
    return ndarray(convert_cells(a.cells, a.dtype, d, True), d)


def pd_scalar(x):
    """numpy-visible element of a pandas array"""
    return x


def arr_get(a, i):
    if is_ea(a):
        return a[i]
    return box(a.buf[a.pos[i]], a.dtype, True)


def py(c):
    """python scalar (iteration of Series/Index yields python scalars)"""
    if isinstance(c, SymNum):
        return c.with_(np=False)
    if isinstance(c, SymBool):
        return SymBool(c.b, np=False)
    return c


def arr_list(a):
    if is_ea(a):
        return list(a)
    return [py(box(c, a.dtype, True)) for c in a.cells]


# ------------------------------------------------------------------ isna etc.
def isna(x):
    if isinstance(x, (Series, DataFrame, Index)):
        return x.isna()
    if is_ea(x):
        return x.isna()
    if isinstance(x, ndarray):
        if x.ndim == 0:
            return SymBool(is_nan_cell(x.buf[x.pos[0]]))
        return arr_isna(x)
    if isinstance(x, list):
        return arr_isna(asarray(x) if all(not isinstance(c, str) for c in x) else ndarray(x, object_dt))
    if isinstance(x, (SymNum, SymBool)):
        r = is_nan_cell(x)
        return r if isinstance(r, bool) else SymBool(r, np=False)
    r = is_nan_cell(x)
    return r


isnull = isna


def notna(x):
    r = isna(x)
    if isinstance(r, bool):
        return not r
    if isinstance(r, SymBool):
        return SymBool(b_not(r.b), np=False)
    return ~r


notnull = notna


# ------------------------------------------------------------------ ops core
_FLIP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


def scalar_to_arr(o):
    """0-d array for a scalar operand, pandas style; None for unknown"""
    d = pd_scalar_dtype(o)
    if d.kind != "O":
        return ndarray([cast_cell(o, d)], d, ())
    return ndarray([o], object_dt, ())


def _logical_obj(op, x, y):
    """pandas logical op on cells where one side is object"""
    def na(c):
        r = is_nan_cell(c)
        return r if isinstance(r, bool) else bool(SymBool(r))
    bx = x if isinstance(x, (SymBool, bool)) else None
    by = y if isinstance(y, (SymBool, bool)) else None
    if bx is not None and by is not None:
        a, b = cast_cell(x, bool_dt).b, cast_cell(y, bool_dt).b
        return {"and": b_and(a, b), "or": b_or(a, b), "xor": b_not(b_iff(a, b))}[op]
    if na(x) or na(y):
        return False
    if bx is None and isinstance(x, SymNum) and x.kind == "i" and by is not None \
            or by is None and isinstance(y, SymNum) and y.kind == "i" and bx is not None:
        a, b = cast_cell(x, bool_dt).b, cast_cell(y, bool_dt).b
        raise Unsupported("bitwise bool/int")
    raise TypeError("unsupported operand type(s) for %s" % op)


def arr_op(op, a, b):
    """elementwise op on pandas arrays (a or b may be 0-d)"""
    if is_ea(a) or is_ea(b):
        return N.PYOP[op](a, b)
    if op in BITS:
        if a.dtype.kind == "O" or b.dtype.kind == "O":
            ca, cb, shape = N.broadcast(a, b)
            return ndarray([SymBool(_logical_obj(op, x, y)) for x, y in zip(ca, cb)], bool_dt, shape)
        if "f" in (a.dtype.kind, b.dtype.kind):
            raise TypeError("Cannot perform '%s_' with a dtyped [%s] array and [%s]" % (op, a.dtype, b.dtype))
        if {a.dtype.kind, b.dtype.kind} == {"i", "b"}:
            raise Unsupported("bitwise bool/int")
    if op in ("eq", "ne") and (a.dtype.kind == "O" or b.dtype.kind == "O"):
        ca, cb, shape = N.broadcast(a, b)
        out = []
        for x, y in zip(ca, cb):
            x, y = box(x, a.dtype, True), box(y, b.dtype, True)
            if x is NaT or y is NaT or is_nan_cell(x) is True or is_nan_cell(y) is True:
                out.append(SymBool(op == "ne"))
                continue
            r = x == y
            r = r if isinstance(r, SymBool) else SymBool(bool(r))
            out.append(SymBool(r.b) if op == "eq" else SymBool(b_not(r.b)))
        return ndarray(out, bool_dt, shape)
    if op in CMP and "M" in (a.dtype.kind, b.dtype.kind) and a.dtype.kind == b.dtype.kind:
        if (a.dtype.tz is None) != (b.dtype.tz is None):
            if op in ("eq", "ne"):
                ca, cb, shape = N.broadcast(a, b)
                return ndarray([SymBool(op == "ne") for _ in ca], bool_dt, shape)
            raise TypeError("Cannot compare tz-naive and tz-aware datetime-like objects")
    if op in ("add", "mul") and a.dtype.kind == "b" and b.dtype.kind == "b":
        pass
    r = elementwise(op, a, b)
    if not isinstance(r, ndarray):
        r = ndarray([r], N.scalar_dtype(r), ())
    if op in ("add", "sub") and r.dtype.kind == "O":
        pass
    return r


def cells_seq(a):
    return a.cells


# ------------------------------------------------------------------ Index
def make_index(a, name=None):
    """array -> Index of the right class"""
    if is_ea(a):
        a = ndarray(list(a), object_dt)
    k = a.dtype.kind
    cls = {"M": DatetimeIndex, "m": TimedeltaIndex}.get(k, Index)
    if k == "O" and len(a) and builtins.all(isinstance(c, Interval) for c in a.cells):
        return IntervalIndex._from_cells(a.cells, name)
    if k == "O" and len(a) and builtins.all(isinstance(c, Period) for c in a.cells):
        return PeriodIndex._from_cells(a.cells, name)
    o = object.__new__(cls)
    o.arr, o._name = a, name
    return o


def ensure_index(x):
    if isinstance(x, Index):
        return x
    if isinstance(x, Series):
        return Index(x)
    return Index(x)


class Index:
    _sx_index = True

    def __new__(cls, data=None, dtype=None, copy=False, name=None, tupleize_cols=True):
        if name is None:
            name = getattr(data, "name", None) if isinstance(data, (Series, Index)) else None
        if isinstance(data, Index) and dtype is None:
            if isinstance(data, IntervalIndex):
                return data
            o = make_index(data.arr.copy() if copy else data.arr, name)
            return o
        if isinstance(data, Series):
            a = data.arr
            if is_ea(a):
                a = ndarray(list(a), object_dt)
        elif isinstance(data, Index):
            a = data.arr
        elif isinstance(data, ndarray):
            if data.ndim != 1:
                raise ValueError("Index data must be 1-dimensional")
            a = data
        elif data is None:
            a = ndarray([], object_dt)
        elif is_ea(data):
            a = ndarray(list(data), object_dt)
        elif isinstance(data, dict):
            a = infer(data)
        elif is_seq(data) or (hasattr(data, "__iter__") and not isinstance(data, str)):
            data = list(data)
            a = infer(data) if data else ndarray([], object_dt)
        else:
            raise TypeError("Index(...) must be called with a collection of some kind, %r was passed" % (data,))
        if dtype is not None:
            a = pd_astype(a, dtype)
        else:
            a = infer_all(a)
        return make_index(a.copy() if copy else a, name)

    @classmethod
    def _make(cls, a, name=None):
        return make_index(a, name)

    # -- protocol
    def _sx_array(self):
        if self.arr.dtype.kind == "M" and self.arr.dtype.tz is not None:
            return ndarray([box(c, self.arr.dtype, True) for c in self.arr.cells], object_dt)
        return self.arr

    def _sx_ufunc(self, f, *args):
        if isinstance(f, ufunc1):
            r = f.apply(self.arr)
        elif len(args) == 2 and builtins.any(isinstance(x, (Series, DataFrame)) for x in args):
            o = [x for x in args if isinstance(x, (Series, DataFrame))][0]
            return o._sx_ufunc(f, *args)
        elif f in ARITH or f in CMP:
            a, b = args
            return N.PYOP[f](a, b) if isinstance(a, Index) else b._binop(a, f, True)
        else:
            a, b = [x.arr if isinstance(x, Index) else N._toarr(x) for x in args]
            r = arr_op(f, a, b) if f not in LOGIC and f not in ("maximum", "minimum", "fmax", "fmin") \
                else elementwise(f, a, b)
        if r.dtype.kind == "b":
            return r
        return make_index(r, self.name)

    def _sx_searchsorted(self, v, side):
        return self.searchsorted(v, side)

    # -- basics
    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        self._name = v

    @property
    def names(self):
        return [self._name]

    nlevels = 1
    ndim = 1

    @property
    def values(self):
        a = self.arr
        if a.dtype.kind == "M" and a.dtype.tz is not None:
            return ndarray(None, dt64_dt, None, a.buf, a.pos)
        return a.view()

    @property
    def array(self):
        return self.arr

    _values = property(lambda s: s.arr)

    def to_numpy(self, dtype=None, copy=False, **k):
        a = self._sx_array() if dtype is None else self.arr.astype(dtype)
        return a.copy() if copy else a

    __array__ = None

    @property
    def dtype(self):
        return self.arr.dtype

    @property
    def shape(self):
        return (len(self),)

    @property
    def size(self):
        return len(self)

    @property
    def empty(self):
        return len(self) == 0

    @property
    def T(self):
        return self

    @property
    def nbytes(self):
        return 8 * len(self)

    def __len__(self):
        return len(self.arr)

    def __iter__(self):
        return iter(arr_list(self.arr))

    def tolist(self):
        return arr_list(self.arr)

    to_list = tolist

    def __hash__(self):
        raise TypeError("unhashable type: %r" % type(self).__name__)

    def __bool__(self):
        raise ValueError("The truth value of a %s is ambiguous. Use a.empty, a.bool(), a.item(), a.any()"
                         " or a.all()." % type(self).__name__)

    def __repr__(self):
        return "%s(%r, dtype=%s)" % (type(self).__name__, self.arr.cells, self.dtype)

    def copy(self, name=None, deep=False):
        return make_index(self.arr.copy(), self.name if name is None else name)

    def view(self, *a):
        return make_index(self.arr, self.name)

    def rename(self, name, inplace=False):
        if inplace:
            self._name = name
            return None
        return make_index(self.arr, name)

    def set_names(self, names, **k):
        return self.rename(names[0] if isinstance(names, list) else names)

    def _wrap(self, a):
        return make_index(a, self.name)

    def __getitem__(self, k):
        if isinstance(k, (Series, Index)):
            k = asarray(k)
        t, v = self.arr._norm_key(k, len(self)) if not isinstance(k, tuple) else (None, None)
        if t is None:
            raise Unsupported("Index[tuple]")
        if t == "i":
            return arr_get(self.arr, v)
        if t == "v":
            return self._wrap(ndarray(None, self.arr.dtype, None, self.arr.buf, [self.arr.pos[i] for i in v]))
        return self._wrap(arr_take(self.arr, v))

    def __setitem__(self, k, v):
        raise TypeError("Index does not support mutable operations")

    def take(self, idx, **k):
        return self._wrap(arr_take(self.arr, [_op.index(i) for i in asarray(idx)]))

    def item(self):
        if len(self) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self[0]

    def isna(self):
        return arr_isna(self.arr)

    isnull = isna

    def notna(self):
        return ~arr_isna(self.arr)

    notnull = notna

    @property
    def hasnans(self):
        return bool(arr_isna(self.arr).any())

    def dropna(self, how="any"):
        return self[self.notna()]

    def fillna(self, v):
        return self.to_series().fillna(v).pipe(lambda s: Index(s, name=self.name))

    def astype(self, dtype, copy=True):
        return make_index(pd_astype(self.arr, dtype), self.name)

    def _monotonic(self, strict, rev=False):
        cs = self.arr.cells
        if rev:
            cs = cs[::-1]
        if self.arr.dtype.kind == "O":
            for a, b in zip(cs, cs[1:]):
                if strict:
                    if not a < b:
                        return False
                elif b < a:
                    return False
            return True
        for c in cs:
            if SymBool(is_nan_cell(c)):
                return False
        for a, b in zip(cs, cs[1:]):
            a, b = N._num(a), N._num(b)
            if not SymBool(a._lt(b) if strict else a._le(b)):
                return False
        return True

    @property
    def is_monotonic_increasing(self):
        return self._monotonic(False)

    @property
    def is_monotonic_decreasing(self):
        return self._monotonic(False, True)

    @property
    def _is_strictly_monotonic_increasing(self):
        return self._monotonic(True)

    @property
    def is_unique(self):
        cs, dt = self.arr.cells, self.arr.dtype
        for i in range(len(cs)):
            for j in range(i):
                if cells_equal(cs[i], cs[j], dt, True):
                    return False
        return True

    @property
    def has_duplicates(self):
        return not self.is_unique

    def duplicated(self, keep="first"):
        return Series(self.arr).duplicated(keep).values

    def unique(self, level=None):
        return self.drop_duplicates()

    def drop_duplicates(self, keep="first"):
        return self[~self.duplicated(keep)]

    def nunique(self, dropna=True):
        u = self.drop_duplicates()
        return len(u.dropna() if dropna else u)

    @property
    def inferred_type(self):
        return {"f": "floating", "i": "integer", "b": "boolean", "M": "datetime64", "m": "timedelta64",
                "O": "mixed"}[self.arr.dtype.kind]

    # -- lookup
    def _label_cell(self, k):
        """label -> cell in this index's dtype or None when it cannot be one"""
        kd = self.arr.dtype.kind
        if kd == "O":
            return k
        if kd in "fi":
            if isinstance(k, (SymBool, bool)) and kd in "fi":
                return SymNum.of(k)
            return nan_num() if is_nan_cell(k) is True else SymNum.of(k)
        if kd == "b":
            return cast_cell(k, bool_dt) if isinstance(k, (SymBool, bool)) else None
        if is_nan_cell(k) is True:
            return SymNum(0, nan=True, kind="i")
        if kd == "M":
            if isinstance(k, str):
                raise Unsupported("string label in DatetimeIndex")
            p = dt_payload(k)
            if p is None or (p[1] is None) != (self.arr.dtype.tz is None):
                return None
            return p[0]
        if isinstance(k, str):
            raise Unsupported("string label in TimedeltaIndex")
        return td_payload(k)

    def _find(self, k):
        """positions with this label"""
        c = self._label_cell(k)
        if c is None:
            return []
        if self.arr.dtype.kind == "O":
            out = []
            for i, x in enumerate(self.arr.cells):
                if x is c:
                    out.append(i)
                    continue
                nx, nc = is_nan_cell(x), is_nan_cell(c)
                if nx is True or nc is True:
                    if nx is True and nc is True:
                        out.append(i)
                    continue
                r = x == c
                if bool(r):
                    out.append(i)
            return out
        return [i for i, x in enumerate(self.arr.cells) if cells_equal(x, c, self.arr.dtype, True)]

    def __contains__(self, k):
        hash(k)
        return bool(self._find(k))

    def get_loc(self, k):
        f = self._find(k)
        if not f:
            raise KeyError(k)
        if len(f) == 1:
            return f[0]
        if f == list(range(f[0], f[-1] + 1)):
            return builtins.slice(f[0], f[-1] + 1)
        m = ndarray([SymBool(i in f) for i in range(len(self))], bool_dt)
        return m

    def get_indexer(self, target, method=None, **k):
        target = ensure_index(target)
        return ndarray([SymNum(-1 if i is None else i, kind="i")
                        for i in self._indexer(target, method)], int64_dt)

    def _indexer(self, target, method=None):
        """positions (or None) of target's labels; self must be unique"""
        dt = common_dtype([self.arr.dtype, target.arr.dtype], True)
        a = convert_cells(self.arr.cells, self.arr.dtype, dt, True)
        b = convert_cells(target.arr.cells, target.arr.dtype, dt, True)
        out = []
        if method in (None,):
            same = self.arr.buf is target.arr.buf and list(self.arr.pos) == list(target.arr.pos)
            for j, x in enumerate(b):
                if same:
                    out.append(j)
                    continue
                hit = None
                for i, c in enumerate(a):
                    if x is c or cells_equal(c, x, dt, True):
                        hit = i
                        break
                out.append(hit)
            return out
        if not self.is_monotonic_increasing and not self.is_monotonic_decreasing:
            raise ValueError("index must be monotonic increasing or decreasing")
        if not self.is_monotonic_increasing:
            raise Unsupported("fill on decreasing index")
        for x in b:
            hit = None
            if method in ("ffill", "pad"):
                for i, c in enumerate(a):
                    if cells_cmp_lt(x, c, dt):
                        break
                    hit = i
            elif method in ("bfill", "backfill"):
                for i in range(len(a) - 1, -1, -1):
                    if cells_cmp_lt(a[i], x, dt):
                        break
                    hit = i
            else:
                raise Unsupported("get_indexer method %s" % method)
            out.append(hit)
        return out

    def searchsorted(self, v, side="left", sorter=None):
        if self.arr.dtype.kind in "Mm":
            sc = not is_seq(v)
            vals = [v] if sc else list(v)
            cs = []
            for x in vals:
                c = self._label_cell(x)
                if c is None:
                    raise TypeError("value should be a 'Timestamp', 'NaT', or array of those. Got %r instead."
                                    % type(x).__name__)
                cs.append(c)
            r = N.searchsorted(ndarray(self.arr.cells, int64_dt), ndarray(cs, int64_dt), side)
            return r[0] if sc else r
        return N.searchsorted(self.arr, v.arr if isinstance(v, (Index, Series)) else v, side)

    def slice_indexer(self, start=None, end=None, step=None):
        n = len(self)
        lo, hi = 0, n
        if start is not None:
            lo = _op.index(self._slice_search(start, "left"))
        if end is not None:
            hi = _op.index(self._slice_search(end, "right"))
        return builtins.slice(lo, hi, step)

    def _slice_search(self, label, side):
        if not self.is_monotonic_increasing:
            raise Unsupported("label slice of a non-monotonic index")
        c = self._label_cell(label)
        if c is None:
            raise TypeError("cannot do slice indexing on %s with these indexers [%r]" % (type(self).__name__, label))
        if self.arr.dtype.kind == "O":
            return N.searchsorted(self.arr, c, side)
        a = ndarray(self.arr.cells, float64_dt if self.arr.dtype.kind == "f" else int64_dt)
        return N.searchsorted(a, ndarray([c], float64_dt if c.kind == "f" else int64_dt), side)[0]

    # -- set ops
    def equals(self, o):
        if self is o:
            return True
        if not isinstance(o, Index) or len(self) != len(o):
            return False
        a, b = self.arr, o.arr
        if isinstance(self, IntervalIndex) != isinstance(o, IntervalIndex):
            return False
        if isinstance(self, IntervalIndex) and self.closed != o.closed:
            return False
        ka, kb = a.dtype.kind, b.dtype.kind
        if ka in "Mm" or kb in "Mm":
            if a.dtype != b.dtype:
                if "O" in (ka, kb):
                    a2, b2 = infer_objects(a), infer_objects(b)
                    if a2.dtype != b2.dtype:
                        return False
                    a, b = a2, b2
                else:
                    return False
        elif ka != kb and "b" in (ka, kb):
            return False
        if a.buf is b.buf and list(a.pos) == list(b.pos):
            return True
        dt = common_dtype([a.dtype, b.dtype], True)
        for x, y in zip(convert_cells(a.cells, a.dtype, dt, True), convert_cells(b.cells, b.dtype, dt, True)):
            if x is y:
                continue
            if not cells_equal(x, y, dt, True):
                return False
        return True

    def identical(self, o):
        return self.equals(o) and self.name == o.name and self.dtype == o.dtype

    def _rname(self, o):
        return self.name if self.name == getattr(o, "name", None) else None

    def union(self, other, sort=None):
        other = ensure_index(other)
        nm = self._rname(other)
        if self.arr.dtype != other.arr.dtype:
            dt = common_dtype([self.arr.dtype, other.arr.dtype], True)
        else:
            dt = self.arr.dtype
        a = convert_cells(self.arr.cells, self.arr.dtype, dt, True)
        b = convert_cells(other.arr.cells, other.arr.dtype, dt, True)
        if not b or (len(a) == len(b) and make_index(ndarray(a, dt)).equals(make_index(ndarray(b, dt)))):
            r = make_index(ndarray(a, dt), nm)
            return r.sort_values() if sort is True else r
        if not a:
            r = make_index(ndarray(b, dt), nm)
            return r.sort_values() if sort is True else r
        out, used = list(a), [False] * len(a)
        for y in b:
            for i, x in enumerate(a):
                if not used[i] and (x is y or cells_equal(x, y, dt, True)):
                    used[i] = True
                    break
            else:
                out.append(y)
                # a duplicate in `other` beyond self's multiplicity is kept, as pandas does
        r = make_index(ndarray(out, dt), nm)
        if sort is False:
            return r
        return r._try_sort()

    def _is_empty_range(self):
        return False

    def _safe_monotonic(self):
        try:
            return self._monotonic(False)
        except (TypeError, AssertionError):
            return True

    def _try_sort(self):
        try:
            return self.sort_values()
        except (TypeError, AssertionError):
            return self

    def intersection(self, other, sort=False):
        other = ensure_index(other)
        m = other._indexer_multi(self)
        return self[[i for i, x in enumerate(m) if x]].drop_duplicates() if len(self) else self

    def _indexer_multi(self, target):
        return [self._find(x) for x in target]

    def difference(self, other, sort=None):
        other = ensure_index(other)
        r = self[[i for i, x in enumerate(self) if not other._find(x)]] if len(self) else self
        r = r.drop_duplicates() if len(r) else r
        return r if sort is False or not len(r) else r._try_sort()

    def symmetric_difference(self, other, **k):
        other = ensure_index(other)
        return self.difference(other).union(other.difference(self))

    def isin(self, vals, level=None):
        o = ensure_index(vals)
        return ndarray([SymBool(bool(o._find(x))) for x in self], bool_dt)

    def append(self, other):
        others = list(other) if isinstance(other, (list, tuple)) else [other]
        arrs = [self.arr] + [o.arr for o in others]
        ne = [a for a in arrs if len(a)] or arrs[:1]
        d = common_dtype([a.dtype for a in ne], True)
        r = ndarray([c for a in ne for c in convert_cells(a.cells, a.dtype, d, True)], d)
        if d.kind == "O" and not builtins.any(a.dtype.kind == "O" for a in ne):
            r = infer_all(r)
        names = {getattr(o, "name", None) for o in others} | {self.name}
        return make_index(r, self.name if len(names) == 1 else None)

    def insert(self, i, item):
        i = _op.index(i)
        if i < 0:
            i += len(self)
        a = self.arr
        c = self._label_cell(item)
        if a.dtype.kind == "O" or c is None:
            cells = [box(x, a.dtype, True) for x in a.cells]
            return make_index(infer_all(ndarray(cells[:i] + [item] + cells[i:], object_dt)), self.name)
        dt = a.dtype
        if dt.kind == "i" and not (isinstance(c, SymNum) and c.kind == "i"):
            dt = float64_dt if promote(dt, item).kind == "f" or not self._int_like(item) else dt
        if dt.kind == "b" and not isinstance(item, (SymBool, bool)):
            dt = object_dt
        cells = convert_cells(a.cells, a.dtype, dt, True)
        return make_index(ndarray(cells[:i] + [cast_cell(c, dt)] + cells[i:], dt), self.name)

    @staticmethod
    def _int_like(x):
        return True

    def delete(self, loc):
        drop = {_op.index(i) % len(self) for i in (asarray(loc) if is_seq(loc) else [loc])}
        return self._wrap(arr_take(self.arr, [i for i in range(len(self)) if i not in drop]))

    def drop(self, labels, errors="raise"):
        labels = list(labels) if is_seq(labels) or isinstance(labels, Index) else [labels]
        drop = set()
        for l in labels:
            f = self._find(l)
            if not f and errors != "ignore":
                raise KeyError("%r not found in axis" % (l,))
            drop.update(f)
        return self._wrap(arr_take(self.arr, [i for i in range(len(self)) if i not in drop]))

    def sort_values(self, return_indexer=False, ascending=True, na_position="last", key=None):
        o = stable_argsort(self.arr.cells, self.arr.dtype)
        if not ascending:
            o = o[::-1]
        r = self._wrap(arr_take(self.arr, o))
        if return_indexer:
            return r, ndarray([SymNum(i, kind="i") for i in o], int64_dt)
        return r

    def argsort(self, *a, **k):
        return self.arr.argsort()

    def map(self, f, na_action=None):
        if isinstance(f, (dict, Series)):
            r = Series(self.arr).map(f).arr
            return make_index(r, self.name)
        out = [f(x) for x in self]
        if not out:
            return make_index(ndarray([], self.arr.dtype if self.arr.dtype.kind != "O" else object_dt), self.name)
        return Index(infer_all(ndarray(out, object_dt)), name=self.name)

    def to_series(self, index=None, name=None):
        return Series(self.arr.copy(), index=self if index is None else index, name=name or self.name)

    def to_frame(self, index=True, name=None):
        return self.to_series(name=name if name is not None else (self.name or 0)).to_frame()

    def min(self, axis=None, skipna=True):
        return Series(self.arr).min()

    def max(self, axis=None, skipna=True):
        return Series(self.arr).max()

    def argmax(self, *a, **k):
        return N.argext(self.arr, "maximum")

    def argmin(self, *a, **k):
        return N.argext(self.arr, "minimum")

    def sum(self):
        raise AttributeError("'Index' object has no attribute 'sum'")

    def any(self, *a, **k):
        return self.arr.any()

    def all(self, *a, **k):
        return self.arr.all()

    def where(self, cond, other=NAN):
        return Index(Series(self.arr).where(asarray(cond), other))

    def putmask(self, m, v):
        return self.where(~asarray(m), v)

    def repeat(self, n):
        return self._wrap(self.arr.repeat(n))

    def get_level_values(self, i):
        return self

    def diff(self, periods=1):
        return Index(Series(self.arr).diff(periods))

    def shift(self, *a, **k):
        raise Unsupported("Index.shift")

    def reindex(self, target, **k):
        t = ensure_index(target)
        return t, self.get_indexer(t)

    def value_counts(self, *a, **k):
        raise Unsupported("value_counts")

    def groupby(self, *a):
        raise Unsupported("Index.groupby")

    def get_indexer_for(self, t):
        return self.get_indexer(t)

    # -- operators
    def _binop(self, o, op, swap=False):
        if isinstance(o, (Series, DataFrame)):
            return NotImplemented
        if isinstance(o, Index):
            b = o.arr
        elif is_seq(o):
            b = asarray(o)
            if b.dtype.kind == "O":
                b = infer_all(b)
            elif b.dtype.kind == "M" and self.arr.dtype.kind == "M":
                pass
        else:
            if getattr(o, "_sx_defer", False):
                return NotImplemented
            b = scalar_to_arr(o)
            if (b.dtype.kind == "O" and not isinstance(o, str) and o is not None and o is not NaT
                    and not isinstance(o, (Interval, Period))):
                # unknown scalar: object arithmetic on each element
                try:
                    out = [N.PYOP[op](x, o) if not swap else N.PYOP[op](o, x) for x in self]
                except TypeError:
                    raise
                if op in CMP:
                    return ndarray([cast_cell(r, bool_dt) for r in out], bool_dt)
                return Index(infer_all(ndarray(out, object_dt)), name=self.name)
        a = self.arr
        if b is not None and b.ndim == 1 and len(b) != len(a):
            raise ValueError("Lengths must match to compare" if op in CMP else
                             "operands could not be broadcast together with shapes")
        if isinstance(o, NaTType) and op in ARITH:
            if self.arr.dtype.kind in "Mm":
                b = ndarray([SymNum(0, nan=True, kind="i")],
                            td64_dt if op == "add" or self.arr.dtype.kind == "m" else self.arr.dtype, ())
        r = arr_op(op, b, a) if swap else arr_op(op, a, b)
        if op in CMP:
            return r
        return make_index(r, self._rname(o) if isinstance(o, Index) else self.name)

    def __neg__(self):
        return make_index(-self.arr, self.name)

    def __abs__(self):
        return make_index(abs(self.arr), self.name)

    def __invert__(self):
        return make_index(~self.arr, self.name)

    def __getattr__(self, k):
        if k.startswith("_sx") or k.startswith("__"):
            raise AttributeError(k)
        if k in _known("INDEX", type(self)):
            raise Unsupported("Index.%s" % k)
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, k))


def _known(what, cls=None):
    from . import known_names as K

    if what == "INDEX":
        if cls is not None and issubclass(cls, IntervalIndex):
            return K.KNOWN_INTERVALINDEX
        if cls is not None and issubclass(cls, (DatetimeIndex, TimedeltaIndex)):
            return K.KNOWN_DTINDEX
        return K.KNOWN_INDEX
    return getattr(K, "KNOWN_" + what)


class RangeIndex(Index):
    def __new__(cls, start=0, stop=None, step=1, name=None, **k):
        if stop is None:
            start, stop = 0, start
        o = object.__new__(RangeIndex)
        o.arr = ndarray([SymNum(i, kind="i") for i in range(start, stop, step)], int64_dt)
        o._name = name
        return o

    def _is_empty_range(self):
        return not len(self)

    def copy(self, *a, **k):
        return self

    start = property(lambda s: 0)
    stop = property(lambda s: len(s))
    step = property(lambda s: 1)


class _DTLIndex(Index):
    @property
    def freq(self):
        return None

    @property
    def asi8(self):
        return ndarray(self.arr.cells, int64_dt)


class DatetimeIndex(_DTLIndex):
    def __new__(cls, data=None, dtype=None, tz=None, name=None, **k):
        r = Index([Timestamp(x, tz=tz) if not is_instant(x) or tz is not None else x for x in data]
                  if not isinstance(data, (Index, ndarray, Series)) else data, name=name)
        if len(r) == 0:
            return make_index(ndarray([], tz_dt(tz)), name)
        if tz is not None and r.arr.dtype.tz is None:
            r = r.tz_localize(tz)
        return r

    @property
    def tz(self):
        return self.arr.dtype.tz

    tzinfo = tz

    def tz_localize(self, tz, **k):
        if tz is None:
            if self.tz is None:
                return self
            return Index([x.tz_localize(None) for x in self], name=self.name)
        if self.tz is not None:
            raise TypeError("Already tz-aware, use tz_convert to convert.")
        if not len(self):
            return make_index(ndarray([], tz_dt(as_tz(tz))), self.name)
        return Index([x.tz_localize(tz) for x in self], name=self.name)

    def tz_convert(self, tz):
        if self.tz is None:
            raise TypeError("Cannot convert tz-naive timestamps, use tz_localize to localize")
        return make_index(ndarray(self.arr.cells, tz_dt(as_tz(tz))), self.name)

    def to_pydatetime(self):
        return ndarray([x.to_pydatetime() for x in self], object_dt)


class TimedeltaIndex(_DTLIndex):
    def __new__(cls, data=None, unit=None, name=None, **k):
        if isinstance(data, (Index, Series, ndarray)) and asarray(data).dtype.kind == "m":
            return make_index(asarray(data), name)
        r = [Timedelta(x, unit) if unit else Timedelta(x) for x in data]
        return make_index(ndarray([x.n for x in r], td64_dt), name)

    def total_seconds(self):
        return Index(ndarray([x.total_seconds() for x in self], float64_dt))


class Interval:
    def __init__(self, left, right, closed="right"):
        if not left <= right:
            raise ValueError("left side of interval must be <= right side")
        self.left, self.right, self.closed = left, right, closed

    @classmethod
    def _mk(cls, l, r, c):
        o = object.__new__(cls)
        o.left, o.right, o.closed = l, r, c
        return o

    @property
    def length(self):
        return self.right - self.left

    @property
    def mid(self):
        return (self.left + self.right) * 0.5

    closed_left = property(lambda s: s.closed in ("left", "both"))
    closed_right = property(lambda s: s.closed in ("right", "both"))
    open_left = property(lambda s: not s.closed_left)
    open_right = property(lambda s: not s.closed_right)

    @property
    def is_empty(self):
        return self.left == self.right and self.closed != "both"

    def __contains__(self, x):
        lo = self.left <= x if self.closed_left else self.left < x
        hi = x <= self.right if self.closed_right else x < self.right
        return bool(lo) and bool(hi)

    def overlaps(self, o):
        op1 = _op.le if self.closed_left and o.closed_right else _op.lt
        op2 = _op.le if o.closed_left and self.closed_right else _op.lt
        return bool(op1(self.left, o.right)) and bool(op2(o.left, self.right))

    def __eq__(self, o):
        if not isinstance(o, Interval):
            return NotImplemented
        return self.closed == o.closed and bool(self.left == o.left) and bool(self.right == o.right)

    def __lt__(self, o):
        if not isinstance(o, Interval):
            return NotImplemented
        if self.left < o.left:
            return True
        return bool(self.left == o.left) and bool(self.right < o.right)

    def __gt__(self, o):
        return o < self

    def __le__(self, o):
        return not (o < self)

    def __ge__(self, o):
        return not (self < o)

    def __hash__(self):
        return 0

    def __repr__(self):
        return "Interval(%r, %r, closed=%r)" % (self.left, self.right, self.closed)


class IntervalDtype(DType):
    def __init__(self, sub=None, closed="right"):
        super().__init__("interval[%s, %s]" % (sub, closed), "O")


class IntervalIndex(Index):
    def __new__(cls, data=None, closed=None, name=None, **k):
        if isinstance(data, IntervalIndex):
            return data if closed in (None, data.closed) else cls._mk(data.left, data.right, closed, name)
        data = list(data)
        return cls._from_cells(data, name, closed)

    @classmethod
    def _from_cells(cls, cells, name=None, closed=None):
        if len({c.closed for c in cells}) > 1:
            raise ValueError("intervals must all be closed on the same side")
        return cls._mk(Index([c.left for c in cells]), Index([c.right for c in cells]),
                       closed or (cells[0].closed if cells else "right"), name)

    @classmethod
    def _mk(cls, left, right, closed, name=None):
        o = object.__new__(IntervalIndex)
        if left.arr.dtype != right.arr.dtype and left.arr.dtype.kind in "fi" and right.arr.dtype.kind in "fi":
            left, right = left.astype(float64_dt), right.astype(float64_dt)
        o.left, o.right, o.closed, o._name = left, right, closed, name
        cells = [Interval._mk(l, r, closed) for l, r in zip(left, right)]
        o.arr = ndarray(cells, object_dt)
        return o

    @classmethod
    def from_arrays(cls, left, right, closed="right", name=None, copy=False, dtype=None):
        left, right = _plain(ensure_index(left)), _plain(ensure_index(right))
        if closed not in ("left", "right", "both", "neither"):
            raise ValueError("invalid option for 'closed': %s" % closed)
        if len(left) != len(right):
            raise ValueError("left and right must have the same length")
        if left.arr.dtype.kind not in "fiMm" or right.arr.dtype.kind not in "fiMm":
            if len(left):
                raise TypeError("category, object, and string subtypes are not supported for IntervalArray")
        if left.arr.dtype.kind in "fi" and right.arr.dtype.kind in "fi":
            if left.arr.dtype != right.arr.dtype:
                left, right = left.astype(float64_dt), right.astype(float64_dt)
        elif left.arr.dtype != right.arr.dtype:
            raise ValueError("must not have differing left [%s] and right [%s] types" % (
                type(left).__name__, type(right).__name__))
        for l, r in zip(left.arr.cells, right.arr.cells):
            ln, rn = is_nan_cell(l), is_nan_cell(r)
            if ln is not False or rn is not False:
                if bool(SymBool(ln)) or bool(SymBool(rn)):
                    raise Unsupported("missing interval")
            if not SymBool(l._le(r)):
                raise ValueError("left side of interval must be <= right side")
        return cls._mk(left, right, closed, name)

    @classmethod
    def from_breaks(cls, breaks, closed="right", name=None, copy=False, dtype=None):
        b = ensure_index(list(breaks) if isinstance(breaks, range) else breaks)
        return cls.from_arrays(b[:-1], b[1:], closed, name)

    @classmethod
    def from_tuples(cls, data, closed="right", name=None, **k):
        return cls.from_arrays([d[0] for d in data], [d[1] for d in data], closed, name)

    def _wrap(self, a):
        pos = [i for i in range(len(a))]
        o = object.__new__(IntervalIndex)
        o.closed, o._name, o.arr = self.closed, self.name, a
        if len(a):
            o.left = make_index(_cast_like([c.left for c in a.cells], self.left), None)
            o.right = make_index(_cast_like([c.right for c in a.cells], self.right), None)
        else:
            o.left, o.right = self.left[:0], self.right[:0]
        return o

    def copy(self, *a, **k):
        return self._wrap(self.arr.copy())

    @property
    def dtype(self):
        return IntervalDtype(self.left.dtype, self.closed)

    @property
    def length(self):
        return self.right - self.left

    @property
    def mid(self):
        return (self.left + self.right) / 2

    @property
    def is_overlapping(self):
        cs = self.arr.cells
        for i in range(len(cs)):
            for j in range(i):
                if cs[i].overlaps(cs[j]):
                    return True
        return False

    @property
    def is_non_overlapping_monotonic(self):
        op = _op.lt if self.closed == "both" else _op.le
        l, r = list(self.left), list(self.right)
        inc = True
        for i in range(len(l) - 1):
            if not op(r[i], l[i + 1]):
                inc = False
                break
        if inc:
            return True
        for i in range(len(l) - 1):
            if not op(r[i + 1], l[i]):
                return False
        return True

    def set_closed(self, c):
        return IntervalIndex._mk(self.left, self.right, c, self.name)

    def overlaps(self, o):
        return ndarray([SymBool(c.overlaps(o)) for c in self.arr.cells], bool_dt)

    def contains(self, x):
        return ndarray([SymBool(x in c) for c in self.arr.cells], bool_dt)

    def to_tuples(self, *a):
        return Index([(c.left, c.right) for c in self.arr.cells])

    def _find(self, k):
        if isinstance(k, Interval):
            return [i for i, c in enumerate(self.arr.cells) if c == k]
        if SymNum.of(k) is not None or is_instant(k) or is_duration(k):
            return [i for i, c in enumerate(self.arr.cells) if k in c]
        return []

    def _indexer(self, target, method=None):
        if isinstance(target, IntervalIndex):
            return super()._indexer(target, method)
        return [(self._find(x) or [None])[0] for x in target]

    def sort_values(self, *a, **k):
        cs = self.arr.cells
        order = []
        for i, c in enumerate(cs):
            j = len(order)
            while j > 0 and c < cs[order[j - 1]]:
                j -= 1
            order.insert(j, i)
        return self._wrap(arr_take(self.arr, order))


def _plain(i):
    if isinstance(i, RangeIndex):
        return make_index(i.arr, i.name)
    return i


def _cast_like(vals, idx):
    d = idx.arr.dtype
    return ndarray([cast_cell(v, d) for v in vals], d)


import datetime as _dtm

_P_EPOCH = _dtm.datetime(1970, 1, 1)


class Period:
    def __init__(self, start, end, freq):
        self.s, self.e, self.freqstr = start, end, freq  # ns, exclusive end

    @property
    def start_time(self):
        return Timestamp._make(SymNum(self.s, kind="i"))

    @property
    def end_time(self):
        return Timestamp._make(SymNum(self.e - 1, kind="i"))

    def __eq__(self, o):
        return isinstance(o, Period) and (self.s, self.freqstr) == (o.s, o.freqstr)

    def __lt__(self, o):
        return self.s < o.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return "Period(%s)" % self.s


def _period_bounds(ns, freq):
    from .scalars import NS, _naive_ns

    d = _P_EPOCH + _dtm.timedelta(microseconds=ns // 1000)
    if freq == "M":
        s = _dtm.datetime(d.year, d.month, 1)
        e = _dtm.datetime(d.year + d.month // 12, d.month % 12 + 1, 1)
        return _naive_ns(s), _naive_ns(e)
    if freq in ("Y", "A"):
        return _naive_ns(_dtm.datetime(d.year, 1, 1)), _naive_ns(_dtm.datetime(d.year + 1, 1, 1))
    if freq in NS and freq != "W":
        u = NS[freq]
        return ns // u * u, ns // u * u + u
    raise Unsupported("period freq %s" % freq)


class PeriodIndex(Index):
    def __new__(cls, data=None, freq=None, name=None, **k):
        cells = []
        for x in data:
            if not isinstance(x, Period):
                s, e = _period_bounds(Timestamp(x).n.r, freq)
                x = Period(s, e, freq)
            cells.append(x)
        return cls._from_cells(cells, name)

    @classmethod
    def _from_cells(cls, cells, name=None):
        o = object.__new__(PeriodIndex)
        o.arr, o._name = ndarray(cells, object_dt), name
        return o

    def _wrap(self, a):
        return PeriodIndex._from_cells(a.cells, self.name)

    @property
    def start_time(self):
        return Index([p.start_time for p in self.arr.cells])

    @property
    def end_time(self):
        return Index([p.end_time for p in self.arr.cells])

    def to_timestamp(self, freq=None, how="start"):
        return self.start_time if how in ("start", "s", "S") else self.end_time


def period_range(start=None, end=None, periods=None, freq=None, **k):
    ns = Timestamp(start).n.r
    out = []
    last = Timestamp(end).n.r if end is not None else None
    while periods is None or len(out) < periods:
        s, e = _period_bounds(ns, freq)
        if last is not None and s > last:
            break
        out.append(Period(s, e, freq))
        ns = e
    return PeriodIndex._from_cells(out)


def date_range(start=None, end=None, periods=None, freq="D", tz=None, **k):
    import re
    from .scalars import NS

    if start is None:
        raise Unsupported("date_range without start")
    s = Timestamp(start, tz=tz)
    e = Timestamp(end, tz=tz) if end is not None else None
    m = re.match(r"^(\d*)([A-Za-z]+)$", freq) if isinstance(freq, str) else None
    out, x = [], s
    if isinstance(freq, str) and freq in ("MS", "YS", "AS", "M", "Y"):
        raise Unsupported("calendar date_range")
    step = Timedelta(freq) if m is None else Timedelta(int(m.group(1) or 1) * NS[m.group(2)])
    while (periods is None or len(out) < periods) and (e is None or bool(x <= e)):
        out.append(x)
        x = x + step
    return Index(out) if out else DatetimeIndex([], tz=s.tz)


def timedelta_range(start=None, end=None, periods=None, freq="D", **k):
    out, x, step = [], Timedelta(start), Timedelta(freq if freq[0].isdigit() else "1" + freq)
    e = Timedelta(end) if end is not None else None
    while (periods is None or len(out) < periods) and (e is None or bool(x <= e)):
        out.append(x)
        x = x + step
    return Index(out)


def interval_range(start=None, end=None, periods=None, freq=None, closed="right", **k):
    if freq is None and periods is None:
        freq = 1 if SymNum.of(start) is not None else Timedelta("1D")
    if periods is not None and freq is None and end is not None:
        br = [start + (end - start) * E.Fraction(i, periods) for i in range(periods + 1)]
        return IntervalIndex.from_breaks(br, closed=closed)
    if isinstance(freq, str):
        freq = Timedelta(freq if freq[0].isdigit() else "1" + freq)
    out, x = [start], start
    while (periods is None or len(out) <= periods) and (end is None or bool(x + freq <= end)):
        x = x + freq
        out.append(x)
    return IntervalIndex.from_breaks(out, closed=closed)


def _install_index_ops():
    for nm in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
        setattr(Index, "__%s__" % nm, lambda s, o, op=nm: s._binop(o, op))
        setattr(Index, "__r%s__" % nm, lambda s, o, op=nm: s._binop(o, op, True))
    for nm in CMP:
        setattr(Index, "__%s__" % nm, lambda s, o, op=nm: s._binop(o, op))


_install_index_ops()


# ------------------------------------------------------------------ Series
def _bool_positions(m, n):
    """positions selected by a boolean mask array (branches per row)"""
    if len(m) != n:
        raise IndexError("Boolean index has wrong length: %d instead of %d" % (len(m), n))
    out = []
    for i, c in enumerate(m.cells):
        if isinstance(c, SymNum):
            if bool(SymBool(c.nan)):
                raise ValueError("Cannot mask with non-boolean array containing NA / NaN values")
        if c:
            out.append(i)
    return out


def is_bool_arr(a):
    if not isinstance(a, ndarray):
        return False
    if a.dtype.kind == "b":
        return True
    if a.dtype.kind == "O" and len(a) and builtins.all(
            isinstance(c, (SymBool, bool)) or is_nan_cell(c) is True for c in a.cells):
        if builtins.any(not isinstance(c, (SymBool, bool)) for c in a.cells):
            if builtins.any(isinstance(c, (SymBool, bool)) for c in a.cells):
                raise ValueError("Cannot mask with non-boolean array containing NA / NaN values")
            return False
        return True
    return False


def _mask_key(key, index):
    """boolean mask positions aligned to index, or None if key is no mask"""
    if isinstance(key, Series):
        if not is_bool_arr(key.arr):
            return None
        if key.index is not index and not key.index.equals(index):
            ix = key.index._indexer(index)
            if None in ix:
                raise IndexingError("Unalignable boolean Series provided as indexer (index of the boolean "
                                    "Series and of the indexed object do not match).")
            return _bool_positions(arr_take(key.arr, ix), len(index))
        return _bool_positions(key.arr, len(index))
    if isinstance(key, Index):
        key = key.arr
    if isinstance(key, (list, ndarray)) and len(key):
        a = asarray(key)
        if a.ndim == 1 and is_bool_arr(a):
            return _bool_positions(a, len(index))
    elif isinstance(key, ndarray) and key.dtype.kind == "b":
        return _bool_positions(key, len(index))
    return None


class IndexingError(Exception):
    pass


def _is_listy(k):
    return isinstance(k, (list, ndarray, Index, Series, range)) and not (
        isinstance(k, ndarray) and k.ndim == 0)


class _ILoc:
    def __init__(self, obj):
        self.o = obj

    def _pos(self, k, n):
        """('i', pos) or ('v', range) or ('c', list)"""
        if isinstance(k, Series):
            k = k.arr
        if isinstance(k, (list, tuple)) and not len(k):
            return "c", []
        if isinstance(k, SymNum) and k.kind == "f":
            raise TypeError("Cannot index by location index with a non-integer key")
        a = ndarray([0] * n, object_dt)
        try:
            return a._norm_key(k, n)
        except IndexError as e:
            if "only integers" in str(e):
                raise TypeError("Cannot index by location index with a non-integer key")
            raise IndexError("single positional indexer is out-of-bounds")

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, DataFrame):
            return o._iloc_get(k)
        if callable(k):
            k = k(o)
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        t, v = self._pos(k, len(o))
        if t == "i":
            return arr_get(o.arr, v)
        return o._take(v, view=(t == "v"))

    def __setitem__(self, k, val):
        o = self.o
        if isinstance(o, DataFrame):
            return o._iloc_set(k, val)
        t, v = self._pos(k, len(o))
        o._set_positions([v] if t == "i" else list(v), val, scalar_key=t == "i")


class _Loc:
    def __init__(self, obj):
        self.o = obj

    def __getitem__(self, k):
        o = self.o
        if callable(k):
            k = k(o)
        if isinstance(o, DataFrame):
            return o._loc_get(k)
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        return o._label_get(k)

    def __setitem__(self, k, val):
        o = self.o
        if callable(k):
            k = k(o)
        if isinstance(o, DataFrame):
            return o._loc_set(k, val)
        o._label_set(k, val)


class Series:
    __array_priority__ = 1000
    _is_series = True

    def __init__(self, data=None, index=None, dtype=None, name=None, copy=None, fastpath=None):
        d = self.__dict__
        d["_cacher"] = None
        if name is None and isinstance(data, (Series, Index)):
            name = data.name
        if isinstance(data, dict):
            keys = list(data.keys())
            if keys:
                s = Series(list(data.values()), index=Index(infer_all(ndarray(keys, object_dt))), dtype=dtype)
            else:
                s = Series(ndarray([], object_dt if dtype is None else resolve_dtype(dtype)))
            if index is not None:
                s = s.reindex(ensure_index(index))
            d["arr"], d["_index"], d["_name"] = s.arr, s.index, name
            return
        if index is not None:
            index = ensure_index(index)
        if data is None:
            n = len(index) if index is not None else 0
            dt = resolve_dtype(dtype) if dtype is not None else object_dt
            if n and dtype is None:
                dt = float64_dt
            if getattr(dt, "_sx_extdtype", False):
                arr = sanitize([None] * n, dt)
            else:
                arr = ndarray([nan_num() if dt.kind == "f" else (
                    SymNum(0, nan=True, kind="i") if dt.kind in "Mm" else NAN)] * n, dt)
            d["arr"], d["_name"] = arr, name
            d["_index"] = index if index is not None else RangeIndex(0)
            return
        if isinstance(data, Series) and index is not None:
            s = data.reindex(index) if data.index is not index else data
            arr = s.arr
            if dtype is not None:
                arr = sanitize(Series(arr), dtype)
            d["arr"], d["_index"], d["_name"] = (arr.copy() if copy else arr), index, name
            return
        if isinstance(data, Series) and index is None:
            index = data.index
        if isinstance(data, DataFrame):
            raise ValueError("Data must be 1-dimensional")
        arr = sanitize(data, dtype, None if index is None else len(index), copy=bool(copy))
        n = len(arr)
        if index is None:
            index = RangeIndex(n)
        elif len(index) != n:
            if n == 1 and isinstance(data, (list, tuple)) and False:
                pass
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (n, len(index)))
        d["arr"], d["_index"], d["_name"] = arr, index, name

    @classmethod
    def _mk(cls, arr, index, name=None):
        s = object.__new__(Series)
        d = s.__dict__
        d["arr"], d["_index"], d["_name"], d["_cacher"] = arr, index, name, None
        return s

    # -- protocol
    def _sx_array(self):
        a = self.arr
        if is_ea(a):
            return a._sx_array()
        if a.dtype.kind == "M" and a.dtype.tz is not None:
            return ndarray([box(c, a.dtype, True) for c in a.cells], object_dt)
        return a

    def _sx_ufunc(self, f, *args):
        if isinstance(f, ufunc1):
            return Series._mk(f.apply(asarray(self)), self.index, self.name)
        a, b = args
        if isinstance(a, DataFrame) or isinstance(b, DataFrame):
            return (a if isinstance(a, DataFrame) else b)._sx_ufunc(f, a, b)
        if f in ARITH or f in CMP or f in BITS:
            if isinstance(a, Series):
                return a._binop(b, f)
            return b._binop(a, f, True)
        if isinstance(a, Series) and isinstance(b, Series):
            if not a.index.equals(b.index):
                a, b = a.align(b)
            idx, nm = a.index, a._rname(b)
        else:
            s = a if isinstance(a, Series) else b
            idx, nm = s.index, s.name

        def arr(x):
            if isinstance(x, Series):
                return asarray(x)
            return N._toarr(x)

        return Series._mk(elementwise(f, arr(a), arr(b)), idx, nm)

    # -- attributes
    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, v):
        v = ensure_index(v)
        if len(v) != len(self.arr):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements"
                             % (len(self.arr), len(v)))
        self.__dict__["_index"] = v

    @property
    def axes(self):
        return [self.index]

    @property
    def name(self):
        return self.__dict__["_name"]

    @name.setter
    def name(self, v):
        self.__dict__["_name"] = v

    @property
    def values(self):
        a = self.arr
        if is_ea(a):
            return a
        if a.dtype.kind == "M" and a.dtype.tz is not None:
            return ndarray(None, dt64_dt, None, a.buf, a.pos)
        return a.view()

    @property
    def array(self):
        return self.arr

    _values = property(lambda s: s.arr)

    def to_numpy(self, dtype=None, copy=False, na_value=no_default):
        a = self._sx_array()
        if dtype is not None:
            a = a.astype(dtype)
        return a.copy() if copy else a.view()

    @property
    def dtype(self):
        return self.arr.dtype

    dtypes = dtype

    @property
    def shape(self):
        return (len(self),)

    @property
    def size(self):
        return len(self)

    ndim = 1

    @property
    def empty(self):
        return len(self) == 0

    @property
    def T(self):
        return self

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def loc(self):
        return _Loc(self)

    @property
    def at(self):
        return _Loc(self)

    @property
    def iat(self):
        return _ILoc(self)

    @property
    def is_unique(self):
        return Index(self).is_unique

    @property
    def is_monotonic_increasing(self):
        return make_index(self.arr).is_monotonic_increasing

    @property
    def is_monotonic_decreasing(self):
        return make_index(self.arr).is_monotonic_decreasing

    @property
    def hasnans(self):
        return bool(arr_isna(self.arr).any())

    def __len__(self):
        return len(self.arr)

    def __iter__(self):
        return iter(arr_list(self.arr))

    def __contains__(self, k):
        return k in self.index

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous. Use a.empty, a.bool(), a.item(), a.any()"
                         " or a.all().")

    def __hash__(self):
        raise TypeError("unhashable type: 'Series'")

    def __float__(self):
        if len(self) == 1:
            return self.iloc[0].__float__()
        raise TypeError("cannot convert the series to float")

    def __repr__(self):
        return "Series(%r, index=%r, dtype=%s)" % (list(self), list(self.index), self.dtype)

    def keys(self):
        return self.index

    def items(self):
        return zip(iter(self.index), iter(self))

    def tolist(self):
        return arr_list(self.arr)

    to_list = tolist

    def to_dict(self, into=dict):
        return dict(self.items())

    def item(self):
        if len(self) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.tolist()[0]

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    def copy(self, deep=True):
        if not deep:
            return Series._mk(self.arr if is_ea(self.arr) else self.arr.view(), self.index, self.name)
        return Series._mk(self.arr.copy(), self.index, self.name)

    def view(self, *a):
        return self.copy(deep=False)

    def _wrap(self, arr):
        return Series._mk(arr, self.index, self.name)

    def _take(self, pos, view=False):
        a = self.arr
        if is_ea(a):
            arr = a[pos.start:pos.stop:pos.step] if view and isinstance(pos, range) and pos.step > 0 \
                else arr_take(a, list(pos))
        elif view:
            arr = ndarray(None, a.dtype, None, a.buf, [a.pos[i] for i in pos])
        else:
            arr = arr_take(a, pos)
        if view:
            ia = self.index.arr
            idx = self.index._wrap(ndarray(None, ia.dtype, None, ia.buf, [ia.pos[i] for i in pos])) \
                if not isinstance(self.index, IntervalIndex) else self.index._wrap(arr_take(ia, list(pos)))
        else:
            idx = self.index._wrap(arr_take(self.index.arr, list(pos)))
        return Series._mk(arr, idx, self.name)

    def take(self, idx, **k):
        return self._take([_op.index(i) % len(self) for i in asarray(idx)])

    def _rname(self, o):
        n = getattr(o, "name", None)
        return self.name if self.name == n else None

    # -- selection
    def _label_get(self, k):
        if isinstance(k, builtins.slice):
            s = self.index.slice_indexer(k.start, k.stop, k.step)
            return self._take(range(len(self))[s], view=True)
        m = _mask_key(k, self.index) if isinstance(k, (Series, Index, ndarray, list)) else None
        if m is not None:
            return self._take(m)
        if _is_listy(k):
            pos = []
            for l in (k if not isinstance(k, ndarray) else list(k)):
                f = self.index._find(l)
                if not f:
                    raise KeyError("%r not in index" % (l,))
                pos.extend(f)
            return self._take(pos)
        if isinstance(k, tuple):
            raise Unsupported("tuple label")
        f = self.index._find(k)
        if not f:
            raise KeyError(k)
        if len(f) == 1:
            return arr_get(self.arr, f[0])
        return self._take(f)

    def __getitem__(self, k):
        if callable(k) and not isinstance(k, (Series, Index)):
            k = k(self)
        if k is Ellipsis:
            return self
        if isinstance(k, builtins.slice):
            if builtins.all(v is None or isinstance(v, int) or (isinstance(v, SymNum) and v.kind == "i")
                            for v in (k.start, k.stop, k.step)) and self.index.arr.dtype.kind != "f":
                return self.iloc[k]
            if k.start is None and k.stop is None:
                return self.iloc[k]
            return self._label_get(k)
        if _is_listy(k):
            if _mask_key_is(k) is False and self.index.arr.dtype.kind in "MmO" and builtins.all(
                    isinstance(x, int) or (isinstance(x, SymNum) and x.kind == "i") for x in k) and len(k):
                return self.iloc[list(k)]
            return self._label_get(k)
        if isinstance(k, (int, SymNum)) and not isinstance(k, bool) and self.index.arr.dtype.kind in "MmO" \
                and not isinstance(self.index, IntervalIndex):
            if isinstance(k, int) or k.kind == "i":
                if not (self.index.arr.dtype.kind == "O" and self.index._find(k)):
                    return self.iloc[k]
        return self._label_get(k)

    def get(self, k, default=None):
        try:
            return self[k]
        except (KeyError, IndexError):
            return default

    def __setitem__(self, k, val):
        if callable(k) and not isinstance(k, (Series, Index)):
            k = k(self)
        if isinstance(k, builtins.slice):
            if builtins.all(v is None or isinstance(v, int) for v in (k.start, k.stop, k.step)):
                self.iloc[k] = val
                return
        self._label_set(k, val, False)

    def _label_set(self, k, val, loc=True):
        if isinstance(k, builtins.slice):
            s = self.index.slice_indexer(k.start, k.stop, k.step)
            return self._set_positions(list(range(len(self))[s]), val)
        if isinstance(k, (Series, Index, ndarray, list)):
            mk = k
            arr = None
            if isinstance(mk, Series) and is_bool_arr(mk.arr):
                if mk.index is not self.index and not mk.index.equals(self.index):
                    pos = _mask_key(mk, self.index)
                    if not pos and not loc:
                        return
                    return self._set_positions(pos, val)
                arr = mk.arr
            elif isinstance(mk, Index) and mk.arr.dtype.kind == "b":
                arr = mk.arr
            elif isinstance(mk, (ndarray, list)) and len(mk) and is_bool_arr(asarray(mk)):
                arr = asarray(mk)
            elif isinstance(mk, ndarray) and mk.dtype.kind == "b":
                arr = mk
            if arr is not None:
                return self._set_mask(arr, val, loc)
            pos = []
            for l in list(k):
                f = self.index._find(l)
                if not f:
                    raise KeyError("%r not in index" % (l,))
                pos.extend(f)
            return self._set_positions(pos, val)
        f = self.index._find(k)
        if f:
            return self._set_positions(f, val, scalar_key=len(f) == 1)
        self._enlarge(k, val)

    def _set_mask(self, m, val, loc=True):
        if len(m) != len(self):
            raise IndexError("Boolean index has wrong length: %d instead of %d" % (len(m), len(self)))
        scalar = not is_seq(val) and not isinstance(val, (Series, Index)) and not is_ea(val)
        a = self.arr
        if scalar and not is_ea(a) and a.dtype.kind in "fb":
            fits = promote(a.dtype, val) == a.dtype
            if fits:
                c = cast_cell(val, a.dtype)
                for i, x in enumerate(m.cells):
                    p = a.pos[i]
                    a.buf[p] = ite_cell(cast_cell(x, bool_dt).b, c, a.buf[p], a.dtype)
                return
        pos = _bool_positions(m, len(self))
        if not pos and scalar and not loc:
            return
        self._set_positions(pos, val)

    def _set_positions(self, pos, val, scalar_key=False):
        a = self.arr
        if is_ea(a):
            for j, p in enumerate(pos):
                a[p] = val
            return
        if isinstance(val, Series):
            if val.index.equals(self.index._wrap(arr_take(self.index.arr, pos))):
                val = val.arr
            else:
                tgt = self.index._wrap(arr_take(self.index.arr, pos))
                val = val.reindex(tgt).arr
        elif isinstance(val, Index):
            val = val.arr
        if is_seq(val) and not (isinstance(val, ndarray) and val.ndim == 0):
            v = asarray(val)
            vals = [box(c, v.dtype, True) for c in v.cells]
            if len(vals) == 1:
                vals = vals * len(pos)
            if len(vals) != len(pos):
                raise ValueError("cannot set using a list-like indexer with a different length than the value")
        else:
            if isinstance(val, ndarray):
                val = val.item()
            vals = [val] * len(pos)
        dt = a.dtype
        if not pos and not is_seq(val):
            dt = promote(dt, val)
        for v in vals:
            dt = promote(dt, v)
        if dt != a.dtype:
            b = ndarray(convert_cells(a.cells, a.dtype, dt, True), dt)
            self._replace_arr(b)
            a = b
        for p, v in zip(pos, vals):
            a.buf[a.pos[p]] = cast_cell(v, dt) if dt.kind != "O" else v

    def _replace_arr(self, arr):
        """dtype change on setting: the frame this Series is a cached column of follows"""
        self.__dict__["arr"] = arr
        c = self._cacher
        if c is not None:
            frame, col = c
            if len(frame.index) == len(arr) and frame._cache.get(col) is self:
                frame._setarr(col, arr)

    def _enlarge(self, k, val):
        a = self.arr
        idx = self.index
        if isinstance(k, (tuple,)):
            raise Unsupported("tuple label")
        if is_seq(val) or isinstance(val, (Series, Index)):
            raise ValueError("cannot set using a list-like")
        new_index = idx.insert(len(idx), k)
        missing = val is None or val is NaT or val is NA or (
            isinstance(val, float) and val != val) or (isinstance(val, SymNum) and val.nan is True)
        if is_ea(a):
            arr = type(a)._concat_same_type([a, type(a)._from_sequence([val])])
        else:
            if missing and len(a) == 0 and a.dtype.kind in "fMm":
                new = ndarray([cast_cell(val, a.dtype)], a.dtype)
            elif missing:
                dt = promote(a.dtype, val)
                new = ndarray([cast_cell(val, dt) if dt.kind != "O" else val], dt)
            elif len(a) and a.dtype.kind != "O":
                dt = promote(a.dtype, val)
                new = ndarray([cast_cell(val, dt) if dt.kind != "O" else val], dt)
            else:
                new = sanitize([val])
            arr = concat_arrays([a, new]) if len(a) else new
        self.__dict__["arr"] = arr
        self.__dict__["_index"] = new_index
        c = self._cacher
        if c is not None:
            frame, col = c
            if frame._cache.get(col) is self:
                frame._cache.pop(col)

    def where(self, cond, other=no_default, inplace=False, axis=None, level=None):
        return self._where(cond, other, False)

    def mask(self, cond, other=no_default, inplace=False, axis=None, level=None):
        return self._where(cond, other, True)

    def _where(self, cond, other, inv):
        if callable(cond) and not isinstance(cond, (Series, Index)):
            cond = cond(self)
        if isinstance(cond, Series):
            if cond.index is not self.index and not cond.index.equals(self.index):
                cond = cond.reindex(self.index)
                cond = cond.fillna(inv)
            m = asarray(cond)
        else:
            m = asarray(cond)
        if len(m) != len(self):
            raise ValueError("Array conditional must be same shape as self")
        if m.dtype.kind not in "bO":
            raise TypeError("Boolean array expected for the condition, not %s" % m.dtype)
        if m.dtype.kind == "O":
            m = m.astype(bool_dt)
        if inv:
            m = ~m
        if callable(other) and not isinstance(other, (Series, Index)):
            other = other(self)
        if other is no_default:
            other = NAN
        a = self.arr
        if isinstance(other, Series):
            if not other.index.equals(self.index):
                other = other.reindex(self.index)
            o = asarray(other)
        elif is_seq(other) or isinstance(other, Index):
            o = asarray(other)
        else:
            if a.dtype.kind == "f" and promote(a.dtype, other) == a.dtype:
                c = cast_cell(other, a.dtype)
                return self._wrap(ndarray([ite_cell(x.b, y, c, a.dtype) for x, y in zip(m.cells, a.cells)], a.dtype))
            if not any(bool(SymBool(b_not(x.b))) for x in m.cells):
                return self.copy()
            dt = promote(a.dtype, other)
            c = cast_cell(other, dt) if dt.kind != "O" else other
            cs = convert_cells(a.cells, a.dtype, dt, True)
            return self._wrap(ndarray([ite_cell(x.b, y, c, dt) for x, y in zip(m.cells, cs)], dt))
        dt = common_dtype([a.dtype, o.dtype], True)
        cs = convert_cells(a.cells, a.dtype, dt, True)
        os_ = convert_cells(o.cells, o.dtype, dt, True)
        return self._wrap(ndarray([ite_cell(x.b, y, z, dt) for x, y, z in zip(m.cells, cs, os_)], dt))

    # -- missing
    def isna(self):
        return self._wrap(arr_isna(self.arr))

    isnull = isna

    def notna(self):
        return ~self.isna()

    notnull = notna

    def dropna(self, axis=0, inplace=False, how=None, ignore_index=False):
        r = self._take(_bool_positions((~arr_isna(self.arr)), len(self)))
        if ignore_index:
            r = r.reset_index(drop=True)
        if inplace:
            return self._update_inplace(r)
        return r

    def _update_inplace(self, r):
        self.__dict__["arr"], self.__dict__["_index"] = r.arr, r.index
        c = self._cacher
        if c is not None:
            frame, col = c
            if frame._cache.get(col) is self:
                if len(frame.index) == len(r.arr):
                    frame._setarr(col, r.arr)
                else:
                    frame._cache.pop(col)
        return None

    def fillna(self, value=None, method=None, axis=None, inplace=False, limit=None, downcast=None):
        if limit is not None:
            raise Unsupported("fillna limit")
        if method is not None:
            r = self.ffill() if method in ("ffill", "pad") else self.bfill()
            return self._update_inplace(r) if inplace else r
        if value is None:
            raise ValueError("Must specify a fill 'value' or 'method'.")
        m = arr_isna(self.arr)
        if isinstance(value, (dict,)):
            value = Series(value)
        if isinstance(value, Series):
            r = self._where(~m, value.reindex(self.index) if not value.index.equals(self.index) else value, False)
        elif is_seq(value):
            raise TypeError('"value" parameter must be a scalar or dict, but you passed a "list"')
        elif self.arr.dtype.kind == "O" or self.arr.dtype.kind in "ib":
            pos = [i for i, x in enumerate(m.cells) if x]
            cs = [box(c, self.arr.dtype, True) for c in self.arr.cells]
            if not pos:
                r = self.copy()
            else:
                for i in pos:
                    cs[i] = value
                arr = ndarray(cs, object_dt)
                r = self._wrap(_downcast_object(arr))
        elif isinstance(value, (bool, SymBool)) and builtins.any(m.cells):
            cs = [box(c, self.arr.dtype, True) for c in self.arr.cells]
            r = self._wrap(_downcast_object(ndarray([value if x else c for c, x in zip(cs, m.cells)], object_dt)))
        else:
            r = self._where(~m, value, False)
        if inplace:
            return self._update_inplace(r)
        return r

    def ffill(self, axis=None, inplace=False, limit=None, **k):
        if limit is not None:
            raise Unsupported("ffill limit")
        r = self._wrap(_ffill(self.arr))
        return self._update_inplace(r) if inplace else r

    pad = ffill

    def bfill(self, axis=None, inplace=False, limit=None, **k):
        if limit is not None:
            raise Unsupported("bfill limit")
        a = self.arr
        r = self._wrap(ndarray(_ffill(ndarray(a.cells[::-1], a.dtype)).cells[::-1], a.dtype))
        return self._update_inplace(r) if inplace else r

    backfill = bfill

    def replace(self, to_replace=None, value=no_default, inplace=False, limit=None, regex=False, method=None):
        pairs = _replace_pairs(to_replace, value)
        r = self._wrap(_replace(self.arr, pairs))
        return self._update_inplace(r) if inplace else r

    def first_valid_index(self):
        for i, m in enumerate(arr_isna(self.arr).cells):
            if not m:
                return self.index[i]
        return None

    def last_valid_index(self):
        ms = arr_isna(self.arr).cells
        for i in range(len(ms) - 1, -1, -1):
            if not ms[i]:
                return self.index[i]
        return None

    # -- reshaping
    def to_frame(self, name=no_default):
        if name is no_default:
            name = 0 if self.name is None else self.name
        f = object.__new__(DataFrame)
        f._init([(name, self.arr if is_ea(self.arr) else self.arr.view())], self.index)
        return f

    def reset_index(self, level=None, drop=False, name=no_default, inplace=False, **k):
        if drop:
            r = Series._mk(self.arr.copy(), RangeIndex(len(self)), self.name)
            return self._update_inplace(r) if inplace else r
        nm = name if name is not no_default else (0 if self.name is None else self.name)
        f = object.__new__(DataFrame)
        f._init([(self.index.name or "index", self.index.arr.copy()), (nm, self.arr.copy())], RangeIndex(len(self)))
        return f

    def rename(self, index=None, inplace=False, **k):
        if callable(index) or isinstance(index, dict):
            return Series._mk(self.arr.copy(), self.index.map(
                index if callable(index) else (lambda x: index.get(x, x))), self.name)
        if inplace:
            self.__dict__["_name"] = index
            return None
        return Series._mk(self.arr.copy(), self.index, index)

    def rename_axis(self, *a, **k):
        return self.copy()

    def set_axis(self, labels, axis=0, copy=None):
        s = self.copy()
        s.index = labels
        return s

    def astype(self, dtype, copy=True, errors="raise"):
        return self._wrap(pd_astype(self.arr, dtype))

    def infer_objects(self, copy=None):
        return self._wrap(infer_all(self.arr))

    def convert_dtypes(self, *a, **k):
        raise Unsupported("convert_dtypes")

    def reindex(self, index=None, method=None, fill_value=NAN, copy=None, level=None, limit=None, tolerance=None,
                axis=None):
        if limit is not None or tolerance is not None:
            raise Unsupported("reindex limit")
        index = ensure_index(index)
        if self.index is index or (method is None and self.index.equals(index)
                                   and self.index.dtype == index.dtype):
            return Series._mk(self.arr.copy(), index, self.name)
        if method is None and len(self) and not self.index.is_unique:
            raise ValueError("cannot reindex on an axis with duplicate labels")
        ix = self.index._indexer(index, method)
        return Series._mk(arr_take_fill(self.arr, ix, fill_value), index, self.name)

    def reindex_like(self, o, **k):
        return self.reindex(o.index, **k)

    def align(self, other, join="outer", axis=None, level=None, copy=None, fill_value=None, **k):
        if isinstance(other, DataFrame):
            raise Unsupported("align with DataFrame")
        if self.index.equals(other.index) and self.index.dtype == other.index.dtype:
            return self.copy(), other.copy()
        fv = NAN if fill_value is None else fill_value
        if join == "outer":
            if self.index.equals(other.index):
                idx = self.index.union(other.index)
                return Series._mk(self.arr, idx, self.name), Series._mk(other.arr, idx, other.name)
            if not self.index.is_unique or not other.index.is_unique:
                raise Unsupported("alignment of duplicated labels")
            idx = self.index.union(other.index)
        elif join == "left":
            idx = self.index
        elif join == "right":
            idx = other.index
        else:
            idx = self.index.intersection(other.index)
        return self.reindex(idx, fill_value=fv), other.reindex(idx, fill_value=fv)

    def drop(self, labels=None, axis=0, index=None, columns=None, level=None, inplace=False, errors="raise"):
        labels = index if labels is None else labels
        labels = list(labels) if _is_listy(labels) else [labels]
        gone = set()
        for l in labels:
            f = self.index._find(l)
            if not f and errors == "raise":
                raise KeyError("%r not found in axis" % (l,))
            gone.update(f)
        r = self._take([i for i in range(len(self)) if i not in gone])
        if inplace:
            return self._update_inplace(r)
        return r

    def pop(self, k):
        v = self[k]
        self.drop(k, inplace=True)
        return v

    def sort_index(self, axis=0, level=None, ascending=True, inplace=False, kind="quicksort", na_position="last",
                   sort_remaining=True, ignore_index=False, key=None):
        o = stable_argsort(self.index.arr.cells, self.index.arr.dtype)
        if not ascending:
            o = o[::-1]
        r = self._take(o)
        return self._update_inplace(r) if inplace else r

    def sort_values(self, axis=0, ascending=True, inplace=False, kind="quicksort", na_position="last",
                    ignore_index=False, key=None):
        o = stable_argsort(self.arr.cells, self.arr.dtype)
        if not ascending:
            nn = [i for i in o if not SymBool(is_nan_cell(self.arr.cells[i]))]
            o = nn[::-1] + [i for i in o if i not in nn]
        r = self._take(o)
        if ignore_index:
            r = r.reset_index(drop=True)
        return self._update_inplace(r) if inplace else r

    def argsort(self, *a, **k):
        return self._wrap(self.arr.argsort())

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        return self.iloc[-n:] if n else self.iloc[:0]

    def squeeze(self, axis=None):
        return self.iloc[0] if len(self) == 1 else self

    def repeat(self, n, axis=None):
        return self._take([i for i in range(len(self)) for _ in range(n)])

    def combine_first(self, other):
        a, b = self.align(other)
        return a.where(a.notna(), b)

    def update(self, other):
        other = other.reindex(self.index)
        m = arr_isna(other.arr)
        self._update_inplace(self._where(m, other, False))

    def duplicated(self, keep="first"):
        cs, dt = (self.arr.cells, self.arr.dtype)
        n = len(cs)
        out = []
        for i in range(n):
            rng = range(i) if keep == "first" else (
                range(i + 1, n) if keep == "last" else [j for j in range(n) if j != i])
            dup = False
            for j in rng:
                if cells_equal(cs[i], cs[j], dt, True):
                    dup = True
                    break
            out.append(SymBool(dup))
        return self._wrap(ndarray(out, bool_dt))

    def drop_duplicates(self, keep="first", inplace=False, ignore_index=False):
        return self._take(_bool_positions(~self.duplicated(keep).arr, len(self)))

    def unique(self):
        r = self.drop_duplicates().arr
        return r

    def nunique(self, dropna=True):
        u = self.drop_duplicates()
        return len(u.dropna() if dropna else u)

    def isin(self, vals):
        return self._wrap(make_index(self.arr).isin(list(vals)))

    def value_counts(self, *a, **k):
        raise Unsupported("value_counts")

    def between(self, l, r, inclusive="both"):
        lo = self >= l if inclusive in ("both", "left") else self > l
        hi = self <= r if inclusive in ("both", "right") else self < r
        return lo & hi

    # -- computation
    def shift(self, periods=1, freq=None, axis=0, fill_value=no_default, suffix=None):
        if freq is not None:
            raise Unsupported("shift freq")
        n = len(self)
        p = _op.index(periods)
        idx = [(i - p) if 0 <= i - p < n else None for i in range(n)]
        return self._wrap(arr_take_fill(self.arr, idx, NAN if fill_value is no_default else fill_value))

    def diff(self, periods=1):
        n, p = len(self), _op.index(periods)
        a = self.arr
        if a.dtype.kind == "b":
            out = [NAN if not 0 <= i - p < n else SymBool(
                b_not(b_iff(a.cells[i].b, a.cells[i - p].b))) for i in range(n)]
            return self._wrap(ndarray(out, object_dt))
        rt = td64_dt if a.dtype.kind in "Mm" else (object_dt if a.dtype.kind == "O" else float64_dt)
        out = []
        for i in range(n):
            if not 0 <= i - p < n:
                out.append(SymNum(0, nan=True, kind="i") if rt.kind == "m" else (
                    NAN if rt.kind == "O" else nan_num()))
            elif rt.kind == "O":
                out.append(a.cells[i] - a.cells[i - p])
            else:
                out.append(cast_cell(a.cells[i]._sub(a.cells[i - p]), rt))
        return self._wrap(ndarray(out, rt))

    def _cum(self, f, zero):
        a = self.arr
        if a.dtype.kind == "O":
            out, acc = [], None
            for c in a.cells:
                if is_nan_cell(c) is True or (isinstance(c, SymNum) and bool(SymBool(c.nan))):
                    out.append(c)
                    continue
                acc = c if acc is None else f(acc, c)
                out.append(acc)
            return self._wrap(ndarray(out, object_dt))
        out, acc = [], None
        for c in a.cells:
            c = N._num(c)
            if acc is None:
                acc = c if c.nan is False else (ite_num(c.nan, zero, c.with_(nan=False)))
            elif c.nan is False:
                acc = f(acc, c)
            else:
                acc = ite_num(c.nan, acc, f(acc, c.with_(nan=False)))
            kd = "f" if a.dtype.kind == "f" else "i"
            v = acc.with_(kind=kd, np=True)
            out.append(v if c.nan is False else v.with_(nan=b_or(v.nan, c.nan)))
        return self._wrap(ndarray(out, int64_dt if a.dtype.kind == "b" else a.dtype))

    def cumsum(self, axis=None, skipna=True, *a, **k):
        if not skipna:
            return self._wrap(N.cumsum(self.arr))
        return self._cum(lambda x, y: x._add(y) if isinstance(x, SymNum) else x + y, SymNum(0))

    def cumprod(self, *a, **k):
        return self._cum(lambda x, y: x._mul(y), SymNum(1))

    def cummax(self, *a, **k):
        return self._cum(lambda x, y: ite_num(x._lt(y), y, x), SymNum(0, ninf=True))

    def cummin(self, *a, **k):
        return self._cum(lambda x, y: ite_num(y._lt(x), y, x), SymNum(0, pinf=True))

    def _red(self):
        """(cells, dtype) for reductions"""
        a = self.arr
        if is_ea(a):
            raise Unsupported("reduction of extension array")
        return a.cells, a.dtype

    def sum(self, axis=None, skipna=True, numeric_only=False, min_count=0, **k):
        if is_ea(self.arr):
            return self.arr._reduce("sum", skipna=skipna)
        cs, dt = self._red()
        if dt.kind == "M":
            raise TypeError("'DatetimeArray' with dtype datetime64[ns] does not support reduction 'sum'")
        if dt.kind == "O":
            r = 0
            for c in cs:
                if skipna and (is_nan_cell(c) is True or isinstance(c, SymNum) and bool(SymBool(c.nan))):
                    continue
                r = r + c
            return r
        if skipna:
            cs2 = [c if isinstance(c, SymBool) or c.nan is False else N._zero_nan(c) for c in cs]
        else:
            cs2 = cs
        if min_count:
            raise Unsupported("min_count")
        r = N.sum_cells(cs2, dt)
        if not cs:
            r = SymNum(0, kind="f" if dt.kind == "f" else "i")
        return box(r, int64_dt if dt.kind == "b" else dt, True)

    def _valid(self):
        return [c for c in (N._num(c) for c in self.arr.cells) if not SymBool(c.nan)]

    def count(self):
        return N.reduce_sum(~arr_isna(self.arr))

    def mean(self, axis=None, skipna=True, **k):
        if is_ea(self.arr):
            return self.arr._reduce("mean", skipna=skipna)
        cs, dt = self._red()
        if dt.kind == "O":
            cs = [c for c in cs if is_nan_cell(c) is not True]
            return N.sum_cells(cs, dt) / len(cs)
        v = self._valid() if skipna else [N._num(c) for c in cs]
        if not v:
            return nan_num() if dt.kind not in "mM" else NaT
        r = N.sum_cells(v, float64_dt)._div(SymNum(len(v)))
        return box(r, dt, True) if dt.kind in "mM" else r

    def median(self, axis=None, skipna=True, **k):
        if is_ea(self.arr):
            return self.arr._reduce("median", skipna=skipna)
        cs, dt = self._red()
        if dt.kind == "O":
            raise Unsupported("object median")
        r = N.median_cells(self._valid() if skipna else [N._num(c) for c in cs])
        return box(r, dt, True) if dt.kind in "mM" else r

    def var(self, axis=None, skipna=True, ddof=1, **k):
        v = self._valid()
        if len(v) <= ddof:
            return nan_num()
        m = N.sum_cells(v, float64_dt)._div(SymNum(len(v)))
        return N.sum_cells([c._sub(m)._mul(c._sub(m)) for c in v], float64_dt)._div(SymNum(len(v) - ddof))

    def std(self, axis=None, skipna=True, ddof=1, **k):
        return N.sqrt(self.var(ddof=ddof))

    def _minmax(self, op, skipna):
        if is_ea(self.arr):
            return self.arr._reduce("max" if op == "maximum" else "min", skipna=skipna)
        cs, dt = self._red()
        if dt.kind == "O":
            cs = [c for c in cs if is_nan_cell(c) is not True]
            r = cs[0]
            for c in cs[1:]:
                if (c > r) if op == "maximum" else (c < r):
                    r = c
            return r
        if dt.kind == "b":
            return N.minmax_cells(cs, dt, op)
        if not cs:
            return nan_num() if dt.kind not in "mM" else NaT
        o2 = ("fmax" if op == "maximum" else "fmin") if skipna else op
        r = N.cast_cell(cs[0], dt)
        for c in cs[1:]:
            r = cell_op(o2, r, dt, c, dt, dt)
        return box(r, dt, True)

    def max(self, axis=None, skipna=True, **k):
        return self._minmax("maximum", skipna)

    def min(self, axis=None, skipna=True, **k):
        return self._minmax("minimum", skipna)

    def _idxext(self, op):
        cs = [N._num(c) for c in self.arr.cells]
        if not cs:
            raise ValueError("attempt to get argmax of an empty sequence")
        best = None
        for i, c in enumerate(cs):
            if SymBool(c.nan):
                continue
            if best is None or SymBool(cs[best]._lt(c) if op == "max" else c._lt(cs[best])):
                best = i
        return best

    def idxmax(self, axis=0, skipna=True, **k):
        i = self._idxext("max")
        return NAN if i is None else self.index[i]

    def idxmin(self, axis=0, skipna=True, **k):
        i = self._idxext("min")
        return NAN if i is None else self.index[i]

    def argmax(self, *a, **k):
        return self._idxext("max")

    def argmin(self, *a, **k):
        return self._idxext("min")

    def any(self, axis=0, bool_only=False, skipna=True, **k):
        a = self.arr
        if a.dtype.kind == "f":
            return SymBool(b_or(*[b_and(b_not(c.nan), cast_cell(c, bool_dt).b) for c in a.cells]))
        return N.reduce_any(a)

    def all(self, axis=0, bool_only=False, skipna=True, **k):
        a = self.arr
        if a.dtype.kind == "f":
            return SymBool(b_and(*[b_or(c.nan, cast_cell(c, bool_dt).b) for c in a.cells]))
        return N.reduce_all(a)

    def prod(self, *a, **k):
        return N.prod(self.dropna().arr)

    product = prod

    def abs(self):
        return self._wrap(abs(self.arr))

    def round(self, decimals=0):
        raise Unsupported("Series.round")

    def clip(self, lower=None, upper=None, **k):
        r = self
        if lower is not None:
            r = r.where(~(r < lower), lower)
        if upper is not None:
            r = r.where(~(r > upper), upper)
        return r.copy() if r is self else r

    def dot(self, o):
        if isinstance(o, Series):
            o = o.reindex(self.index)
        return N.dot(self.arr, asarray(o))

    __matmul__ = dot

    def quantile(self, *a, **k):
        raise Unsupported("Series.quantile")

    def describe(self, *a, **k):
        raise Unsupported("Series.describe")

    def searchsorted(self, v, side="left", sorter=None):
        return make_index(self.arr).searchsorted(v, side)

    def map(self, f, na_action=None):
        if isinstance(f, dict):
            d = f
            f = lambda x: d.get(x, NAN)
        elif isinstance(f, Series):
            s = f
            f = lambda x: s.get(x, NAN)
        out = [f(x) for x in self._objs()]
        return self._wrap(_infer_mapped(out, self))

    def _objs(self):
        a = self.arr
        if is_ea(a):
            return list(a)
        return [box(c, a.dtype, True) if a.dtype.kind != "f" and a.dtype.kind != "i" else py(c) for c in a.cells]

    def apply(self, func, convert_dtype=no_default, args=(), by_row="compat", **kwargs):
        if isinstance(func, str):
            return getattr(self, func)(*args, **kwargs)
        if isinstance(func, (ufunc1,)) and not kwargs and not args:
            return func(self)
        if not len(self):
            return self.copy()
        if not isinstance(args, tuple):
            args = tuple(args)
        out = [func(x, *args, **kwargs) for x in self._objs()]
        if isinstance(out[0], Series):
            return DataFrame._from_series_list(out, self.index)
        return self._wrap(_infer_mapped(out, self))

    def agg(self, func=None, axis=0, *args, **kwargs):
        if isinstance(func, str):
            return getattr(self, func)(*args, **kwargs)
        if isinstance(func, (list, tuple)):
            return Series([self.agg(f) for f in func], index=[f if isinstance(f, str) else f.__name__ for f in func])
        return func(self, *args, **kwargs)

    aggregate = agg

    def transform(self, f, *a, **k):
        return self.apply(f)

    def groupby(self, by=None, axis=no_default, level=None, as_index=True, sort=True, group_keys=True,
                observed=no_default, dropna=True):
        if level is not None:
            by = self.index
        if isinstance(by, list) and len(by) == 1 and not SymNum.of(by[0]):
            by = by[0]
        if callable(by) and not isinstance(by, (Series, Index)):
            by = self.index.map(by)
        if isinstance(by, Series):
            by = by.reindex(self.index) if not by.index.equals(self.index) else by
            keys, kname = by.arr, by.name
        elif isinstance(by, Index):
            keys, kname = by.arr, by.name
        else:
            keys, kname = asarray(by), None
        return SeriesGroupBy(self, keys, kname, sort, dropna)

    def equals(self, other):
        if not isinstance(other, Series) or len(self) != len(other):
            return False
        if not self.index.equals(other.index):
            return False
        a, b = self.arr, other.arr
        if is_ea(a) or is_ea(b):
            return is_ea(a) and a.equals(b)
        if a.dtype != b.dtype:
            return False
        for x, y in zip(a.cells, b.cells):
            if not cells_equal(x, y, a.dtype, True):
                return False
        return True

    # -- operators
    def _binop(self, o, op, swap=False):
        if isinstance(o, DataFrame):
            return NotImplemented
        s = self
        if isinstance(o, Series):
            if s.index is not o.index and not s.index.equals(o.index):
                if op in CMP:
                    raise ValueError("Can only compare identically-labeled Series objects")
                if op in BITS:
                    s, o = s.align(o)
                else:
                    s, o = s.align(o)
            elif s.index is not o.index and s.index.dtype != o.index.dtype and op not in CMP:
                s, o = s.align(o)
            nm = s._rname(o)
            b = o.arr
        elif isinstance(o, Index):
            nm, b = s._rname(o) if False else s.name, o.arr
        elif is_ea(o):
            nm, b = s.name, o
        elif is_seq(o) and not (isinstance(o, ndarray) and o.ndim == 0):
            nm, b = s.name, asarray(o)
            if b.dtype.kind == "O" and not any(getattr(c, "_sx_stairs", False) for c in b.cells):
                b = infer_all(b)
        else:
            nm = s.name
            if isinstance(o, ndarray):
                o = box(o.buf[o.pos[0]], o.dtype)
            if is_ea(s.arr):
                return Series._mk(N.PYOP[op](s.arr, o) if not swap else N.PYOP[op](o, s.arr), s.index, nm)
            b = scalar_to_arr(o)
            if o is NaT and s.arr.dtype.kind in "Mm" and op in ARITH:
                b = ndarray([SymNum(0, nan=True, kind="i")], td64_dt, ())
        a = s.arr
        if is_ea(a) or is_ea(b):
            r = N.PYOP[op](b, a) if swap else N.PYOP[op](a, b)
            return Series._mk(r, s.index, nm)
        if b.ndim == 1 and len(b) != len(a):
            raise ValueError("Lengths must match to compare" if op in CMP else
                             "operands could not be broadcast together with shapes")
        r = arr_op(op, b, a) if swap else arr_op(op, a, b)
        return Series._mk(r, s.index, nm)

    def _flex(self, o, op, fill_value=None, swap=False):
        if isinstance(o, Series):
            a, b = self, o
            if a.index is not b.index and not (a.index.equals(b.index) and a.index.dtype == b.index.dtype):
                a, b = a.align(b)
            nm = self._rname(o)
            if fill_value is not None:
                ma, mb = arr_isna(a.arr), arr_isna(b.arr)
                fa = a._where(Series._mk(ndarray([SymBool(b_not(b_and(x.b, b_not(y.b)))) for x, y in zip(
                    ma.cells, mb.cells)], bool_dt), a.index), fill_value, False)
                fb = b._where(Series._mk(ndarray([SymBool(b_not(b_and(y.b, b_not(x.b)))) for x, y in zip(
                    ma.cells, mb.cells)], bool_dt), b.index), fill_value, False)
                a, b = fa, fb
            r = a._binop(Series._mk(b.arr, a.index, b.name), op, swap)
            return Series._mk(r.arr, r.index, nm)
        if is_seq(o) and not (isinstance(o, ndarray) and o.ndim == 0) or isinstance(o, Index):
            if len(o) != len(self):
                raise ValueError("Lengths must be equal")
            o = Series(o, index=self.index)
            return self._flex(o, op, fill_value, swap)
        s = self
        if fill_value is not None:
            if isna(o):
                return s._binop(NAN, op, swap)
            s = s.fillna(fill_value)
        return s._binop(o, op, swap)

    def __neg__(self):
        return self._wrap(-self.arr)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return self.abs()

    def __invert__(self):
        return self._wrap(~self.arr)

    def __getattr__(self, k):
        if k.startswith("_sx") or k.startswith("__"):
            raise AttributeError(k)
        from . import known_names as K

        if k in K.KNOWN_SERIES:
            raise Unsupported("Series.%s" % k)
        idx = self.__dict__.get("_index")
        if idx is not None and idx.arr.dtype.kind == "O" and builtins.any(
                isinstance(c, str) and c == k for c in idx.arr.cells):
            return self[k]
        raise AttributeError("'Series' object has no attribute %r" % k)

    def plot(self, *a, **k):
        raise Unsupported("Series.plot")


def _mask_key_is(k):
    if isinstance(k, Series):
        return is_bool_arr(k.arr)
    a = asarray(k)
    return a.ndim == 1 and is_bool_arr(a)


def _downcast_object(arr):
    """pandas fillna on object silently downcasts when possible (deprecated behaviour)"""
    return infer_all(arr)


def _infer_mapped(out, s):
    if not out:
        return ndarray([], s.arr.dtype if not is_ea(s.arr) else object_dt)
    return infer_all(ndarray(out, object_dt)) if builtins.any(x is not None for x in out) else ndarray(out, object_dt)


def _ffill(a):
    if a.dtype.kind == "O":
        out = []
        for c in a.cells:
            n = is_nan_cell(c)
            if out and bool(SymBool(n) if not isinstance(n, bool) else n):
                out.append(out[-1])
            else:
                out.append(c)
        return ndarray(out, a.dtype)
    out = []
    for c in a.cells:
        if out and not isinstance(c, SymBool) and c.nan is not False:
            c = cast_cell(ite_num(c.nan, out[-1], c), a.dtype)
        out.append(c)
    return ndarray(out, a.dtype)


def _replace_pairs(to, value):
    if isinstance(to, dict) and value is no_default:
        return list(to.items())
    if isinstance(to, (list, tuple, ndarray)):
        if isinstance(value, (list, tuple, ndarray)):
            return list(zip(list(to), list(value)))
        if value is no_default:
            raise Unsupported("replace without value")
        return [(t, value) for t in to]
    if value is no_default:
        raise Unsupported("replace without value")
    return [(to, value)]


def _replace(a, pairs):
    cur = a.copy()
    for t, v in pairs:
        d = pd_scalar_dtype(t)
        tnan = is_nan_cell(t) is True
        hits = []
        for c in cur.cells:
            if tnan:
                hits.append(is_nan_cell(c))
            elif cur.dtype.kind == "O":
                n = is_nan_cell(c)
                if n is True:
                    hits.append(False)
                    continue
                e = c == t
                hits.append(e.b if isinstance(e, SymBool) else bool(e))
            elif d.kind == "O" or (d.kind in "Mm") != (cur.dtype.kind in "Mm") or (
                    d.kind == "b") != (cur.dtype.kind == "b"):
                hits.append(False)
            else:
                tc = cast_cell(t, d)
                hits.append(N._num(c)._eq(N._num(tc)))
        dt = cur.dtype
        if promote(dt, v) != dt:
            if not builtins.any(bool(SymBool(h)) if not isinstance(h, bool) else h for h in hits):
                continue
            dt = promote(dt, v)
        cs = convert_cells(cur.cells, cur.dtype, dt, True)
        vc = cast_cell(v, dt) if dt.kind != "O" else v
        cur = ndarray([ite_cell(h, vc, c, dt) for h, c in zip(hits, cs)], dt)
    return cur


class SeriesGroupBy:
    def __init__(self, obj, keys, kname, sort, dropna):
        self.obj = obj
        cells, dt = keys.cells, keys.dtype
        if len(cells) != len(obj):
            raise ValueError("Grouper and axis must be same length")
        groups = []  # [cell, [positions]]
        for i, c in enumerate(cells):
            n = is_nan_cell(c)
            if n is not False and bool(SymBool(n) if not isinstance(n, bool) else n):
                if dropna:
                    continue
            for g in groups:
                if g[0] is c or cells_equal(g[0], c, dt, True):
                    g[1].append(i)
                    break
            else:
                groups.append([c, [i]])
        if sort:
            o = stable_argsort([g[0] for g in groups], dt)
            groups = [groups[i] for i in o]
        self.groups_ = groups
        a = ndarray([g[0] for g in groups], dt)
        if dt.kind == "O":
            a = infer_all(a)
        self.index = make_index(a, kname)

    def _agg(self, f):
        out = [f(self.obj._take(g[1])) for g in self.groups_]
        return out

    def _typed(self, f, dt=None):
        if is_ea(self.obj.arr):
            raise Unsupported("groupby on extension array")
        d = self.obj.arr.dtype if dt is None else dt
        if d.kind == "b":
            d = int64_dt
        out = self._agg(f)
        if d.kind == "O":
            return Series._mk(infer_all(ndarray(out, object_dt)), self.index, self.obj.name)
        return Series._mk(ndarray([cast_cell(x, d) for x in out], d), self.index, self.obj.name)

    def sum(self, numeric_only=False, min_count=0, **k):
        if self.obj.arr.dtype.kind == "O":
            return self._typed(lambda s: s.sum())
        return self._typed(lambda s: s.sum())

    def mean(self, *a, **k):
        return self._typed(lambda s: s.mean(), float64_dt if self.obj.arr.dtype.kind not in "mM" else None)

    def max(self, *a, **k):
        return self._typed(lambda s: s.max())

    def min(self, *a, **k):
        return self._typed(lambda s: s.min())

    def count(self):
        return self._typed(lambda s: s.count(), int64_dt)

    def size(self):
        return self._typed(lambda s: len(s), int64_dt)

    def last(self, *a, **k):
        return self._pick(-1)

    def first(self, *a, **k):
        return self._pick(0)

    def _pick(self, i):
        def f(s):
            v = s.dropna()
            return arr_get(v.arr, i if i >= 0 else len(v) - 1) if len(v) else NAN
        return self._typed(f)

    def tail(self, n=1):
        pos = sorted(p for g in self.groups_ for p in g[1][-n:])
        return self.obj._take(pos)

    def head(self, n=1):
        pos = sorted(p for g in self.groups_ for p in g[1][:n])
        return self.obj._take(pos)

    def agg(self, f, *a, **k):
        if isinstance(f, str):
            return getattr(self, f)()
        if f in (builtins.sum, N.sum):
            return self.sum()
        return Series._mk(infer_all(ndarray(self._agg(f), object_dt)), self.index, self.obj.name)

    apply = aggregate = agg

    def __iter__(self):
        for i, g in enumerate(self.groups_):
            yield arr_get(self.index.arr, i), self.obj._take(g[1])

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        raise Unsupported("SeriesGroupBy.%s" % k)


def _install_series_ops():
    flex = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "truediv", "floordiv": "floordiv", "mod": "mod",
            "pow": "pow"}
    for nm in list(flex) + ["and", "or", "xor"]:
        setattr(Series, "__%s__" % nm, lambda s, o, op=nm: s._binop(o, op))
        setattr(Series, "__r%s__" % nm, lambda s, o, op=nm: s._binop(o, op, True))

        def inplace(self, o, op=nm):
            r = self._binop(o, op)
            if r is NotImplemented:
                return r
            if not is_ea(self.arr) and r.arr.dtype == self.arr.dtype and len(r) == len(self) and r.index.equals(
                    self.index):
                for p, c in zip(self.arr.pos, r.arr.cells):
                    self.arr.buf[p] = c
            else:
                self._update_inplace(r)
            return self

        setattr(Series, "__i%s__" % nm, inplace)
    for nm in CMP:
        setattr(Series, "__%s__" % nm, lambda s, o, op=nm: s._binop(o, op))

    def mk(op, swap, name):
        def f(self, other, level=None, fill_value=None, axis=0):
            return self._flex(other, op, fill_value, swap)
        f.__name__ = name
        return f

    for nm in list(flex) + list(CMP):
        setattr(Series, nm, mk(nm, False, nm))
    for nm in flex:
        setattr(Series, "r" + nm, mk(nm, True, "r" + nm))
    Series.div = Series.divide = Series.truediv
    Series.rdiv = Series.rtruediv
    Series.multiply = Series.mul
    Series.subtract = Series.sub


_install_series_ops()
