"""Symbolic model of pandas.DataFrame, concat and the pandas module object."""
import builtins
import operator as _op
import types

from . import engine as E
from . import npshim as N
from . import pdshim as P
from .engine import SymBool, SymNum, Unsupported, b_and, b_not, b_or
from .npshim import (
    ARITH, BITS, CMP, asarray, bool_dt, box, cells_equal, common_dtype, convert_cells, elementwise,
    float64_dt, int64_dt, is_seq, ndarray, object_dt, stable_argsort, ufunc1,
)
from .pdshim import (
    NA, DatetimeIndex, Index, IndexingError, Interval, IntervalIndex, NaT, Period, PeriodIndex,
    RangeIndex, Series, TimedeltaIndex, Timedelta, Timestamp, _bool_positions, _is_listy, _mask_key,
    arr_get, arr_isna, arr_list, arr_take, arr_take_fill, concat_arrays, ensure_index, infer_all,
    is_bool_arr, is_ea, make_index, no_default, pd_astype, sanitize,
)


class InvalidIndexError(Exception):
    pass


def _lab_eq(a, b):
    if a is b:
        return True
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    try:
        return bool(a == b)
    except (TypeError, AssertionError):
        return False


class DataFrame:
    __array_priority__ = 1000
    _is_frame = True

    # -- construction
    def _init(self, cols, index):
        d = self.__dict__
        d["_names"] = [c for c, _ in cols]
        d["_arrs"] = [a for _, a in cols]
        d["_index"] = index
        d["_cache"] = {}

    @classmethod
    def _mk(cls, cols, index):
        f = object.__new__(DataFrame)
        f._init(list(cols), index)
        return f

    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if index is not None:
            index = ensure_index(index)
        colnames = None if columns is None else list(ensure_index(columns))
        if data is None:
            data = {}
        if isinstance(data, DataFrame):
            f = data
            if index is not None and index is not data._index:
                f = f.reindex(index)
            if colnames is not None:
                f = f._select(colnames, missing=True)
            cols = [(n, a.copy() if copy and not is_ea(a) else a) for n, a in zip(f._names, f._arrs)]
            self._init(cols, f._index if index is None else index)
        elif isinstance(data, dict):
            self._from_dict(data, index, colnames)
        elif isinstance(data, (Series, Index)):
            nm = data.name
            if colnames is None:
                colnames = [0 if nm is None else nm]
            elif nm is not None and not _lab_eq(nm, colnames[0]):
                raise Unsupported("DataFrame(series, columns) selecting another name")
            if isinstance(data, Index):
                a, ix = sanitize(data), index if index is not None else RangeIndex(len(data))
            else:
                if index is not None and index is not data.index and not data.index.equals(index):
                    data = data.reindex(index)
                a, ix = data.arr, data.index if index is None else index
                a = a.copy() if copy else (a if is_ea(a) else a.view())
            self._init([(colnames[0], a)], ix)
        elif isinstance(data, ndarray) and data.ndim == 2:
            m, n = data.shape
            if index is None:
                index = RangeIndex(m)
            if colnames is None:
                colnames = list(range(n))
            if len(colnames) != n or len(index) != m:
                raise ValueError("Shape of passed values is %s, indices imply %s" % (
                    (m, n), (len(index), len(colnames))))
            cols = []
            for j in range(n):
                a = ndarray(None, data.dtype, None, data.buf, [data.pos[i * n + j] for i in range(m)])
                if copy:
                    a = a.copy()
                cols.append((colnames[j], P.infer_objects(a)))
            self._init(cols, index)
        elif is_ea(data) or isinstance(data, ndarray):
            a = sanitize(data, None, None)
            self._init([(colnames[0] if colnames else 0, a)], index if index is not None else RangeIndex(len(a)))
        else:
            if not isinstance(data, (list, tuple)):
                data = list(data)
            if not data:
                self._from_dict({}, index, colnames)
            elif isinstance(data[0], Series):
                if index is None:
                    if builtins.any(s.name is not None for s in data):
                        index = Index([s.name for s in data])
                    else:
                        index = RangeIndex(len(data))
                f = DataFrame._from_series_list(data, index)
                if colnames is not None:
                    f = f._select(colnames, missing=True)
                self._init(list(zip(f._names, f._arrs)), index)
            elif isinstance(data[0], dict):
                keys = []
                for r in data:
                    for k in r:
                        if not builtins.any(_lab_eq(k, x) for x in keys):
                            keys.append(k)
                cols = [(k, infer_all(ndarray([r.get(k, E.NAN) for r in data], object_dt))) for k in keys]
                self._init(cols, index if index is not None else RangeIndex(len(data)))
                if colnames is not None:
                    f = self._select(colnames, missing=True)
                    self._init(list(zip(f._names, f._arrs)), self._index)
            elif is_seq(data[0]) or isinstance(data[0], Index):
                rows = [list(r) for r in data]
                n = builtins.max(len(r) for r in rows)
                if colnames is None:
                    colnames = list(range(n))
                if len(colnames) != n:
                    raise ValueError("%d columns passed, passed data had %d columns" % (len(colnames), n))
                rows = [r + [None] * (n - len(r)) for r in rows]
                cols = [(colnames[j], infer_all(ndarray([r[j] for r in rows], object_dt))) for j in range(n)]
                self._init(cols, index if index is not None else RangeIndex(len(rows)))
            else:
                a = sanitize(list(data))
                self._init([(colnames[0] if colnames else 0, a)], index if index is not None else RangeIndex(len(a)))
        if dtype is not None:
            self.__dict__["_arrs"] = [pd_astype(a, dtype) for a in self._arrs]
        for a in self._arrs:
            if len(a) != len(self._index):
                raise ValueError("Shape of passed values is (%d, %d), indices imply (%d, %d)" % (
                    len(a), len(self._names), len(self._index), len(self._names)))

    def _from_dict(self, data, index, colnames):
        if colnames is not None:
            items = []
            for c in colnames:
                for k, v in data.items():
                    if _lab_eq(k, c):
                        items.append((c, v))
                        break
                else:
                    items.append((c, E.NAN))
        else:
            items = list(data.items())
        if index is None:
            ser = [v for _, v in items if isinstance(v, Series)] + [
                Series(v) for _, v in items if isinstance(v, dict)]
            lens = {len(v) for _, v in items if not isinstance(v, (Series, dict)) and (
                is_seq(v) or is_ea(v) or isinstance(v, (Index, range)))
                    and not (isinstance(v, ndarray) and v.ndim == 0)}
            if ser:
                index = _union_indexes([s.index for s in ser])
                if lens and lens != {len(index)}:
                    raise ValueError("array length %d does not match index length %d" % (
                        builtins.max(lens), len(index)))
            elif lens:
                if len(lens) > 1:
                    raise ValueError("All arrays must be of the same length")
                index = RangeIndex(lens.pop())
            elif items:
                raise ValueError("If using all scalar values, you must pass an index")
            else:
                index = RangeIndex(0)
        cols = []
        for k, v in items:
            if isinstance(v, dict):
                v = Series(v)
            cols.append((k, _column_array(v, index)))
        self._init(cols, index)

    @classmethod
    def _from_series_list(cls, lst, index):
        cols = _union_indexes([s.index for s in lst], sort=False)
        rows = []
        done = {}
        for s in lst:
            if id(s.index) not in done:
                if not s.index.is_unique:
                    raise InvalidIndexError("Reindexing only valid with uniquely valued Index objects")
                done[id(s.index)] = s.index._indexer(cols)
            rows.append(arr_take_fill(s.arr, done[id(s.index)]))
        dt = common_dtype([r.dtype for r in rows], True)
        data = []
        for j in range(len(cols)):
            a = ndarray([convert_cells([r.cells[j]], r.dtype, dt, True)[0] for r in rows], dt)
            data.append(infer_all(a) if dt.kind == "O" else a)
        return cls._mk(zip(list(cols), data), index)

    @classmethod
    def from_dict(cls, data, orient="columns", dtype=None, columns=None):
        if orient != "columns":
            raise Unsupported("from_dict orient")
        return cls(data, columns=columns, dtype=dtype)

    @classmethod
    def from_records(cls, data, columns=None, index=None, **k):
        return cls(list(data), columns=columns, index=index)

    # -- lookup
    def _pos(self, c):
        return [i for i, n in enumerate(self._names) if _lab_eq(n, c)]

    def _setarr(self, c, arr):
        p = self._pos(c)
        if p:
            self._arrs[p[0]] = arr

    def _col(self, i):
        n = self._names[i]
        if isinstance(n, str) or (type(n) is int):
            s = self._cache.get(n)
            if s is None or s.arr is not self._arrs[i] and self._shares(s.arr, self._arrs[i]) is False:
                a = self._arrs[i]
                s = Series._mk(a, self._index, n)
                s.__dict__["_cacher"] = (self, n)
                self._cache[n] = s
            return s
        return Series._mk(self._arrs[i], self._index, n)

    @staticmethod
    def _shares(a, b):
        if is_ea(a) or is_ea(b):
            return a is b
        return a.buf is b.buf and len(a) == len(b) and a.dtype == b.dtype

    def _select(self, names, missing=False):
        cols = []
        for c in names:
            p = self._pos(c)
            if not p:
                if not missing:
                    raise KeyError("%r not in index" % (c,))
                cols.append((c, ndarray([N.nan_num()] * len(self), float64_dt)))
            for i in p:
                a = self._arrs[i]
                cols.append((c, a.copy()))
        return DataFrame._mk(cols, self._index)

    def _rows(self, pos, view=False):
        cols = []
        for n, a in zip(self._names, self._arrs):
            if view and not is_ea(a):
                cols.append((n, ndarray(None, a.dtype, None, a.buf, [a.pos[i] for i in pos])))
            else:
                cols.append((n, arr_take(a, list(pos))))
        idx = self._index._wrap(arr_take(self._index.arr, list(pos)))
        return DataFrame._mk(cols, idx)

    def _row_series(self, i):
        arrs = self._arrs
        if not arrs:
            return Series._mk(ndarray([], object_dt), self.columns, arr_get(self._index.arr, i))
        dt = object_dt if builtins.any(is_ea(a) for a in arrs) else common_dtype([a.dtype for a in arrs], True)
        vals = []
        for a in arrs:
            if is_ea(a):
                vals.append(a[i])
            else:
                vals.append(convert_cells([a.cells[i]], a.dtype, dt, True)[0])
        return Series._mk(ndarray(vals, dt), self.columns, arr_get(self._index.arr, i))

    def __getitem__(self, k):
        if callable(k) and not isinstance(k, (Series, Index, DataFrame)):
            k = k(self)
        if isinstance(k, DataFrame):
            return self.where(k)
        if isinstance(k, slice):
            if builtins.all(v is None or isinstance(v, int) for v in (k.start, k.stop, k.step)) \
                    and self._index.arr.dtype.kind != "f":
                return self.iloc[k]
            return self.loc[k]
        if isinstance(k, tuple):
            raise Unsupported("tuple column label")
        if _is_listy(k):
            m = _mask_key(k, self._index)
            if m is not None:
                return self._rows(m)
            return self._select(list(k))
        p = self._pos(k)
        if not p:
            raise KeyError(k)
        if len(p) > 1:
            return DataFrame._mk([(self._names[i], self._arrs[i]) for i in p], self._index)
        return self._col(p[0])

    def __setitem__(self, k, val):
        if callable(k):
            k = k(self)
        if isinstance(k, (Series, ndarray, list)) and _is_listy(k):
            m = _mask_key(k, self._index)
            if m is not None:
                return self._iloc_set((m, slice(None)), val)
            if isinstance(val, DataFrame):
                for c, i in zip(list(k), range(len(val._names))):
                    self[c] = Series._mk(val._arrs[i], val._index)
                return
            for c in list(k):
                self[c] = val
            return
        if isinstance(k, (slice, DataFrame, tuple)):
            raise Unsupported("DataFrame.__setitem__ key")
        if len(self._index) == 0 and not self._names or (
                len(self._index) == 0 and (is_seq(val) or isinstance(val, (Series, Index))) and len(val)):
            if isinstance(val, Series):
                ix = val.index
            elif is_seq(val) or isinstance(val, Index) or is_ea(val):
                ix = RangeIndex(len(val))
            else:
                ix = self._index
            if len(ix) != len(self._index):
                self.__dict__["_arrs"] = [arr_take_fill(a, [None] * len(ix)) for a in self._arrs]
                self.__dict__["_index"] = ix
                self._cache.clear()
        a = _column_array(val, self._index)
        self._put(k, a)

    def _put(self, k, a):
        p = self._pos(k)
        if isinstance(k, (str, int)):
            self._cache.pop(k, None)
        if p:
            for i in p:
                self._arrs[i] = a
        else:
            self._names.append(k)
            self._arrs.append(a)

    def __delitem__(self, k):
        p = self._pos(k)
        if not p:
            raise KeyError(k)
        for i in reversed(p):
            del self._names[i], self._arrs[i]
        self._cache.pop(k, None) if isinstance(k, (str, int)) else None

    def pop(self, k):
        s = self[k]
        s.__dict__["_cacher"] = None
        del self[k]
        return s

    def get(self, k, default=None):
        try:
            return self[k]
        except (KeyError, ValueError, IndexError):
            return default

    def insert(self, loc, column, value, allow_duplicates=False):
        if self._pos(column):
            raise ValueError("cannot insert %s, already exists" % column)
        a = _column_array(value, self._index)
        self._names.insert(loc, column)
        self._arrs.insert(loc, a)

    def _iloc_get(self, k):
        if callable(k):
            k = k(self)
        h = P._ILoc(self)
        if not isinstance(k, tuple):
            k = (k, slice(None))
        rk, ck = k
        tc, vc = h._pos(ck, len(self._names))
        if tc == "i":
            s = self._col(vc)
            if isinstance(rk, slice) and rk == slice(None):
                return s
            return s.iloc[rk]
        f = self
        if not (isinstance(ck, slice) and ck == slice(None)):
            f = DataFrame._mk([(self._names[i], self._arrs[i]) for i in vc], self._index)
        tr, vr = h._pos(rk, len(self))
        if tr == "i":
            return f._row_series(vr)
        return f._rows(vr, view=(tr == "v"))

    def _iloc_set(self, k, val):
        if not isinstance(k, tuple):
            k = (k, slice(None))
        h = P._ILoc(self)
        tr, vr = h._pos(k[0], len(self))
        rows = [vr] if tr == "i" else list(vr)
        tc, vc = h._pos(k[1], len(self._names))
        cols = [vc] if tc == "i" else list(vc)
        self._setblock(rows, cols, val, tr == "i")

    def _setblock(self, rows, cols, val, single_row=False):
        if isinstance(val, DataFrame):
            raise Unsupported("DataFrame block assignment from DataFrame")
        if single_row and (is_seq(val) or isinstance(val, Series)) and len(cols) > 1:
            vs = list(val)
            if len(vs) != len(cols):
                raise ValueError("Must have equal len keys and value when setting with an iterable")
            for c, v in zip(cols, vs):
                self._col(c)._set_positions(rows, v)
            return
        if len(cols) > 1 and is_seq(val):
            raise Unsupported("DataFrame block assignment")
        full = len(rows) == len(self)
        for c in cols:
            s = self._col(c)
            if s._cacher is None:
                t = Series._mk(self._arrs[c], self._index)
                t._set_positions(rows, val)
                self._arrs[c] = t.arr
                continue
            s._set_positions(rows, val)
            self._arrs[c] = s.arr

    def _rowkey(self, k):
        """-> (positions, kind) kind: 's' scalar, 'v' view slice, 'c' copy; None positions = missing label"""
        n = len(self)
        if isinstance(k, slice):
            if k == slice(None):
                return list(range(n)), "v"
            return list(range(n))[self._index.slice_indexer(k.start, k.stop, k.step)], "v"
        if callable(k) and not isinstance(k, (Series, Index)):
            k = k(self)
        m = _mask_key(k, self._index) if isinstance(k, (Series, Index, ndarray, list)) else None
        if m is not None:
            return m, "c"
        if _is_listy(k):
            pos = []
            for l in list(k):
                f = self._index._find(l)
                if not f:
                    raise KeyError("%r not in index" % (l,))
                pos.extend(f)
            return pos, "c"
        f = self._index._find(k)
        if not f:
            return None, k
        return f, "s" if len(f) == 1 else "c"

    def _colkey(self, k):
        if isinstance(k, slice):
            if k == slice(None):
                return list(range(len(self._names))), "v"
            raise Unsupported("column label slice")
        if _is_listy(k):
            m = _mask_key(k, self.columns)
            if m is not None:
                return m, "c"
            pos = []
            for l in list(k):
                p = self._pos(l)
                if not p:
                    raise KeyError(l)
                pos.extend(p)
            return pos, "c"
        p = self._pos(k)
        if not p:
            return None, k
        return p, "s" if len(p) == 1 else "c"

    def _loc_get(self, k):
        if isinstance(k, tuple):
            if len(k) != 2:
                raise IndexingError("Too many indexers")
            rk, ck = k
        else:
            rk, ck = k, slice(None)
        cp, ct = self._colkey(ck)
        if cp is None:
            raise KeyError(ck)
        if ct == "s":
            s = self._col(cp[0])
            if isinstance(rk, slice) and rk == slice(None):
                return s
            return s.loc[rk]
        f = self if ct == "v" else DataFrame._mk([(self._names[i], self._arrs[i].copy()) for i in cp], self._index)
        rp, rt = f._rowkey(rk)
        if rp is None:
            raise KeyError(rk)
        if rt == "s":
            return f._row_series(rp[0])
        return f._rows(rp, view=(rt == "v"))

    def _loc_set(self, k, val):
        if isinstance(k, tuple):
            rk, ck = k
        else:
            rk, ck = k, slice(None)
        cp, ct = self._colkey(ck)
        if cp is None:
            if isinstance(rk, slice) and rk == slice(None):
                self[ck] = val
                return
            self[ck] = E.NAN
            cp, ct = self._colkey(ck)
        rp, rt = self._rowkey(rk)
        if rp is None:
            # enlargement with one new row
            vals = list(val) if is_seq(val) or isinstance(val, Series) else [val] * len(cp)
            if len(cp) != len(vals):
                raise ValueError("cannot set a row with mismatched columns")
            new = self._index.insert(len(self._index), rk)
            arrs = []
            for i, a in enumerate(self._arrs):
                s = Series._mk(a.copy(), self._index)
                s._enlarge(rk, vals[cp.index(i)] if i in cp else E.NAN)
                arrs.append(s.arr)
            self.__dict__["_arrs"] = arrs
            self.__dict__["_index"] = new
            self._cache.clear()
            return
        self._setblock(rp, cp, val, rt == "s")

    iloc = property(lambda s: P._ILoc(s))
    loc = property(lambda s: P._Loc(s))
    iat = property(lambda s: P._ILoc(s))
    at = property(lambda s: P._Loc(s))

    # -- attributes
    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, v):
        v = ensure_index(v)
        if len(v) != len(self._index):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements"
                             % (len(self._index), len(v)))
        self.__dict__["_index"] = v
        for s in self._cache.values():
            s.__dict__["_index"] = v

    @property
    def columns(self):
        if not self._names:
            return RangeIndex(0) if not len(self._index) else Index(ndarray([], object_dt))
        return Index(infer_all(ndarray(list(self._names), object_dt)))

    @columns.setter
    def columns(self, v):
        v = list(ensure_index(v))
        if len(v) != len(self._names):
            raise ValueError("Length mismatch")
        self.__dict__["_names"] = v
        self.__dict__["_cache"] = {}

    def __setattr__(self, k, v):
        if k in ("index", "columns"):
            object.__setattr__(self, k, v)
        elif k in self.__dict__.get("_names", ()):
            self[k] = v
        else:
            object.__setattr__(self, k, v)

    @property
    def axes(self):
        return [self.index, self.columns]

    @property
    def shape(self):
        return (len(self._index), len(self._names))

    @property
    def size(self):
        return len(self._index) * len(self._names)

    ndim = 2

    @property
    def empty(self):
        return self.size == 0

    @property
    def dtypes(self):
        return Series(ndarray([a.dtype for a in self._arrs], object_dt), index=self.columns)

    @property
    def values(self):
        if len(self._arrs) == 1 and not is_ea(self._arrs[0]):
            a = Series._mk(self._arrs[0], self._index).values
            if a.dtype.kind == "M" and self._arrs[0].dtype.tz is not None:
                a = ndarray([box(c, self._arrs[0].dtype, True) for c in a.cells], object_dt)
            return ndarray(None, a.dtype, (len(a), 1), a.buf, a.pos)
        m, n = self.shape
        if not n:
            return ndarray([], float64_dt, (m, 0))
        dt = object_dt if builtins.any(is_ea(a) for a in self._arrs) else common_dtype(
            [a.dtype for a in self._arrs], True)
        if dt.kind == "M" and dt.tz is not None:
            dt = object_dt
        cols = [list(a) if is_ea(a) else convert_cells(a.cells, a.dtype, dt, True) for a in self._arrs]
        return ndarray([cols[j][i] for i in range(m) for j in range(n)], dt, (m, n))

    _values = values

    def to_numpy(self, dtype=None, copy=False, na_value=no_default):
        v = self.values
        if dtype is not None:
            v = v.astype(dtype)
        return v.copy() if copy else v

    def _sx_array(self):
        return self.values

    def _sx_ufunc(self, f, *args):
        if isinstance(f, ufunc1):
            return DataFrame._mk([(n, f.apply(a)) for n, a in zip(self._names, self._arrs)], self._index)
        a, b = args
        if isinstance(a, DataFrame):
            return a._binop(b, f)
        return b._binop(a, f, True)

    def __len__(self):
        return len(self._index)

    def __iter__(self):
        return iter(list(self._names))

    def keys(self):
        return self.columns

    def __contains__(self, k):
        return bool(self._pos(k))

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous. Use a.empty, a.bool(), a.item(), a.any()"
                         " or a.all().")

    def __hash__(self):
        raise TypeError("unhashable type: 'DataFrame'")

    def __repr__(self):
        return "DataFrame(%r, index=%r)" % ({str(n): list(a) if is_ea(a) else a.cells for n, a in zip(
            self._names, self._arrs)}, list(self._index))

    def items(self):
        for i, n in enumerate(self._names):
            yield n, self._col(i)

    def iterrows(self):
        for i in range(len(self)):
            yield arr_get(self._index.arr, i), self._row_series(i)

    def itertuples(self, index=True, name="Pandas"):
        import collections

        fields = (["Index"] if index else []) + [str(n) for n in self._names]
        cols = ([list(self._index)] if index else []) + [
            list(a) if is_ea(a) else arr_list(a) for a in self._arrs]
        if name is None:
            return zip(*cols)
        t = collections.namedtuple(name, fields, rename=True)
        return (t(*r) for r in zip(*cols))

    def to_dict(self, orient="dict", **k):
        if orient == "list":
            return {n: list(self._col(i)) for i, n in enumerate(self._names)}
        if orient == "dict":
            return {n: self._col(i).to_dict() for i, n in enumerate(self._names)}
        if orient == "records":
            return [dict(zip(self._names, r)) for r in self.itertuples(False, None)]
        raise Unsupported("to_dict orient")

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    def copy(self, deep=True):
        if not deep:
            return DataFrame._mk([(n, a if is_ea(a) else a.view()) for n, a in zip(self._names, self._arrs)],
                                 self._index)
        return DataFrame._mk([(n, a.copy()) for n, a in zip(self._names, self._arrs)], self._index)

    def _wrap(self, arrs):
        return DataFrame._mk(zip(self._names, arrs), self._index)

    def _each(self, f, inplace=False):
        r = self._wrap([f(Series._mk(a, self._index, n)).arr for n, a in zip(self._names, self._arrs)])
        return self._inplace(r) if inplace else r

    def _inplace(self, r):
        d = self.__dict__
        d["_names"], d["_arrs"], d["_index"], d["_cache"] = r._names, r._arrs, r._index, {}
        return None

    # -- reshaping / selection
    def set_index(self, keys, drop=True, append=False, inplace=False, verify_integrity=False):
        cols = list(zip(self._names, [a.copy() for a in self._arrs]))
        if isinstance(keys, list) and len(keys) == 1 and isinstance(keys[0], (str, Index, Series)):
            keys = keys[0]
        if isinstance(keys, (Index, Series, ndarray)):
            idx = ensure_index(keys)
            if len(idx) != len(self):
                raise ValueError("Length mismatch: Expected %d rows, received array of length %d" % (
                    len(self), len(idx)))
        elif isinstance(keys, str):
            p = self._pos(keys)
            if not p:
                raise KeyError(keys)
            idx = make_index(self._arrs[p[0]].copy(), keys)
            if drop:
                cols = [c for i, c in enumerate(cols) if i not in p]
        else:
            raise Unsupported("set_index keys")
        r = DataFrame._mk(cols, idx)
        return self._inplace(r) if inplace else r

    def set_axis(self, labels, axis=0, copy=None):
        r = self.copy()
        if axis in (0, "index"):
            r.index = labels
        else:
            r.columns = labels
        return r

    def reset_index(self, level=None, drop=False, inplace=False, names=None, **k):
        cols = [(n, a.copy()) for n, a in zip(self._names, self._arrs)]
        if not drop:
            nm = self._index.name
            cols.insert(0, (names or ("index" if nm is None else nm), self._index.arr.copy()))
        r = DataFrame._mk(cols, RangeIndex(len(self)))
        return self._inplace(r) if inplace else r

    def rename(self, mapper=None, index=None, columns=None, axis=None, inplace=False, copy=None, **k):
        if axis in (1, "columns"):
            columns = mapper
        elif mapper is not None:
            index = mapper
        f = self.copy()
        if columns is not None:
            g = columns if callable(columns) else (lambda x: columns.get(x, x))
            f.columns = [g(n) for n in f._names]
        if index is not None:
            g2 = index if callable(index) else (lambda x: index.get(x, x))
            f.index = f._index.map(g2)
        return self._inplace(f) if inplace else f

    def rename_axis(self, *a, **k):
        return self.copy()

    def drop(self, labels=None, axis=0, index=None, columns=None, level=None, inplace=False, errors="raise"):
        if labels is not None:
            if axis in (1, "columns"):
                columns = labels
            else:
                index = labels
        f = self.copy()
        if columns is not None:
            cs = list(columns) if _is_listy(columns) or isinstance(columns, tuple) else [columns]
            for c in cs:
                if not f._pos(c):
                    if errors == "raise":
                        raise KeyError("%r not found in axis" % (c,))
                    continue
                del f[c]
        if index is not None:
            ls = list(index) if _is_listy(index) or isinstance(index, tuple) else [index]
            gone = set()
            for l in ls:
                p = f._index._find(l)
                if not p and errors == "raise":
                    raise KeyError("%r not found in axis" % (l,))
                gone |= set(p)
            f = f._rows([i for i in range(len(f)) if i not in gone])
        return self._inplace(f) if inplace else f

    def assign(self, **k):
        f = self.copy()
        for c, v in k.items():
            f[c] = v(f) if callable(v) else v
        return f

    def filter(self, items=None, **k):
        if items is None:
            raise Unsupported("DataFrame.filter")
        return self._select([c for c in items if self._pos(c)])

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        return self.iloc[-n:] if n else self.iloc[0:0]

    def take(self, idx, axis=0, **k):
        return self._rows([_op.index(i) % len(self) for i in asarray(idx)])

    def squeeze(self, axis=None):
        if len(self._names) == 1:
            s = self._col(0)
            return s.iloc[0] if len(s) == 1 and axis is None else s
        return self

    @property
    def T(self):
        m, n = self.shape
        v = self.values
        cols = []
        for i in range(m):
            a = ndarray([v.cells[i * n + j] for j in range(n)], v.dtype)
            cols.append((arr_get(self._index.arr, i), infer_all(a) if v.dtype.kind == "O" else a))
        return DataFrame._mk(cols, self.columns)

    transpose = lambda self: self.T

    def reindex(self, labels=None, index=None, columns=None, axis=None, method=None, fill_value=E.NAN, copy=None, **k):
        if labels is not None:
            if axis in (1, "columns"):
                columns = labels
            else:
                index = labels
        f = self
        if index is not None:
            t = ensure_index(index)
            r = [Series._mk(a, f._index).reindex(t, method=method, fill_value=fill_value).arr for a in f._arrs]
            f = DataFrame._mk(zip(f._names, r), t)
        if columns is not None:
            f = f._select(list(ensure_index(columns)), missing=True)
        return f if f is not self else self.copy()

    def sort_index(self, axis=0, level=None, ascending=True, inplace=False, kind="quicksort", na_position="last",
                   sort_remaining=True, ignore_index=False, key=None):
        if axis in (1, "columns"):
            raise Unsupported("sort_index axis 1")
        s = Series._mk(ndarray(list(range(len(self))), object_dt), self._index)
        order = [int(x) for x in s.sort_index(ascending=ascending, kind=kind, na_position=na_position).arr.cells]
        r = self._rows(order)
        if ignore_index:
            r.index = RangeIndex(len(r))
        return self._inplace(r) if inplace else r

    def sort_values(self, by, axis=0, ascending=True, inplace=False, kind="quicksort", na_position="last",
                    ignore_index=False, key=None):
        if isinstance(by, (list, tuple)):
            if len(by) != 1:
                raise Unsupported("sort_values by several columns")
            by = by[0]
        a = self._arrs[self._pos(by)[0]]
        s = Series._mk(a, RangeIndex(len(a)))
        order = [int(i) for i in s.sort_values(ascending=ascending, na_position=na_position).index]
        r = self._rows(order)
        if ignore_index:
            r.index = RangeIndex(len(r))
        return self._inplace(r) if inplace else r

    def dropna(self, axis=0, how="any", subset=None, inplace=False, **k):
        if axis not in (0, "index"):
            raise Unsupported("dropna axis 1")
        arrs = self._arrs if subset is None else [
            self._arrs[self._pos(c)[0]] for c in (subset if isinstance(subset, (list, tuple)) else [subset])]
        ms = [arr_isna(a).cells for a in arrs]
        comb = b_or if how == "any" else b_and
        keep = []
        for i in range(len(self)):
            if not ms or not bool(SymBool(comb(*[m[i].b for m in ms]))):
                keep.append(i)
        r = self._rows(keep)
        return self._inplace(r) if inplace else r

    def drop_duplicates(self, subset=None, keep="first", inplace=False, ignore_index=False):
        m = self.duplicated(subset, keep)
        r = self._rows(_bool_positions(~m.arr, len(self)))
        return self._inplace(r) if inplace else r

    def duplicated(self, subset=None, keep="first"):
        cols = self._names if subset is None else (subset if isinstance(subset, (list, tuple)) else [subset])
        arrs = [self._arrs[self._pos(c)[0]] for c in cols]
        n = len(self)

        def same(i, j):
            return builtins.all(cells_equal(a.cells[i], a.cells[j], a.dtype, True) for a in arrs)
        out = []
        for i in range(n):
            rng = range(i) if keep == "first" else range(i + 1, n)
            out.append(SymBool(builtins.any(same(i, j) for j in rng)))
        return Series._mk(ndarray(out, bool_dt), self._index)

    # -- elementwise
    def isna(self):
        return self._wrap([arr_isna(a) for a in self._arrs])

    isnull = isna

    def notna(self):
        return self._wrap([~arr_isna(a) for a in self._arrs])

    notnull = notna

    def fillna(self, value=None, method=None, axis=None, inplace=False, limit=None, **k):
        if isinstance(value, dict):
            f = self.copy()
            for c, v in value.items():
                if f._pos(c):
                    f[c] = f[c].fillna(v)
            return self._inplace(f) if inplace else f
        if isinstance(value, DataFrame):
            raise Unsupported("fillna(DataFrame)")
        return self._each(lambda s: s.fillna(value, method=method, limit=limit), inplace)

    def ffill(self, axis=None, inplace=False, limit=None, **k):
        return self._each(lambda s: s.ffill(), inplace)

    pad = ffill

    def bfill(self, axis=None, inplace=False, limit=None, **k):
        return self._each(lambda s: s.bfill(), inplace)

    backfill = bfill

    def replace(self, to_replace=None, value=no_default, inplace=False, limit=None, regex=False, method=no_default):
        return self._each(lambda s: s.replace(to_replace, value), inplace)

    def astype(self, dtype, copy=True, errors="raise"):
        if isinstance(dtype, dict):
            f = self.copy()
            for c, d in dtype.items():
                f[c] = f[c].astype(d)
            return f
        return self._each(lambda s: s.astype(dtype))

    def infer_objects(self, copy=None):
        return self._each(lambda s: s.infer_objects())

    def where(self, cond, other=no_default, inplace=False, **k):
        return self._cond(cond, other, "where", inplace)

    def mask(self, cond, other=no_default, inplace=False, **k):
        return self._cond(cond, other, "mask", inplace)

    def _cond(self, cond, other, how, inplace):
        if callable(cond) and not isinstance(cond, (Series, DataFrame)):
            cond = cond(self)
        if isinstance(cond, DataFrame):
            arrs = []
            for n, a in zip(self._names, self._arrs):
                c = cond[n]
                arrs.append(getattr(Series._mk(a, self._index), how)(c, other).arr)
            r = self._wrap(arrs)
        elif isinstance(cond, ndarray) and cond.ndim == 2:
            arrs = []
            for j, a in enumerate(self._arrs):
                arrs.append(getattr(Series._mk(a, self._index), how)(cond[:, j], other).arr)
            r = self._wrap(arrs)
        else:
            r = self._each(lambda s: getattr(s, how)(cond, other))
        return self._inplace(r) if inplace else r

    def shift(self, periods=1, freq=None, axis=0, fill_value=no_default, **k):
        return self._each(lambda s: s.shift(periods, fill_value=fill_value))

    def diff(self, periods=1, axis=0):
        return self._each(lambda s: s.diff(periods))

    def cumsum(self, axis=None, skipna=True, *a, **k):
        return self._each(lambda s: s.cumsum(skipna=skipna))

    def abs(self):
        return self._each(lambda s: s.abs())

    def round(self, decimals=0):
        return self._each(lambda s: s.round(decimals))

    def clip(self, lower=None, upper=None, **k):
        return self._each(lambda s: s.clip(lower, upper))

    def map(self, f, na_action=None):
        return self._each(lambda s: s.map(f))

    applymap = map

    def _reduce(self, name, axis=0, **k):
        if axis is None:
            raise Unsupported("reduction over both axes")
        if axis in (1, "columns"):
            out = [getattr(self._row_series(i), name)(**k) for i in range(len(self))]
            return Series._mk(infer_all(ndarray(out, object_dt)) if out else ndarray([], float64_dt), self._index)
        out = [getattr(Series._mk(a, self._index, n), name)(**k) for n, a in zip(self._names, self._arrs)]
        return Series._mk(infer_all(ndarray(out, object_dt)) if out else ndarray([], object_dt), self.columns)

    def apply(self, func, axis=0, raw=False, result_type=None, args=(), **kwargs):
        if raw or result_type is not None:
            raise Unsupported("DataFrame.apply options")
        if axis in (1, "columns"):
            if not len(self):
                return self.copy()
            out = [func(self._row_series(i), *args, **kwargs) for i in range(len(self))]
            if isinstance(out[0], Series):
                return DataFrame._from_series_list(out, self._index)
            return Series._mk(infer_all(ndarray(out, object_dt)), self._index)
        out = [func(self._col(i), *args, **kwargs) for i in range(len(self._names))]
        if out and isinstance(out[0], Series):
            return DataFrame(dict(zip(self._names, out)))
        return Series._mk(infer_all(ndarray(out, object_dt)), self.columns)

    def agg(self, func=None, axis=0, *args, **kwargs):
        if isinstance(func, str):
            return getattr(self, func)(*args, **kwargs)
        raise Unsupported("DataFrame.agg")

    aggregate = agg

    def equals(self, o):
        if not isinstance(o, DataFrame) or self.shape != o.shape or not self._index.equals(o._index):
            return False
        if not builtins.all(_lab_eq(a, b) for a, b in zip(self._names, o._names)):
            return False
        return builtins.all(Series._mk(a, self._index).equals(Series._mk(b, self._index))
                            for a, b in zip(self._arrs, o._arrs))

    # -- operators
    def _binop(self, o, op, swap=False):
        def go(a, b, idx):
            x = Series._mk(a, idx)
            return x._binop(b, op, swap).arr
        if isinstance(o, DataFrame):
            if not (self._index.equals(o._index) and len(self._names) == len(o._names)
                    and builtins.all(_lab_eq(a, b) for a, b in zip(self._names, o._names))):
                if op in CMP:
                    raise ValueError("Can only compare identically-labeled (both index and columns) DataFrame objects")
                names = list(self._names) + [n for n in o._names if not self._pos(n)]
                idx = self._index.union(o._index)
                a, b = self.reindex(index=idx, columns=names), o.reindex(index=idx, columns=names)
                return a._binop(b, op, swap)
            return self._wrap([go(a, Series._mk(b, self._index), self._index) for a, b in zip(self._arrs, o._arrs)])
        if isinstance(o, Series):
            cols = []
            un = list(self._names)
            for l in o.index:
                if not self._pos(l):
                    raise Unsupported("DataFrame op Series with other labels")
            for n, a in zip(self._names, self._arrs):
                f = o.index._find(n)
                cols.append(go(a, arr_get(o.arr, f[0]) if f else E.NAN, self._index))
            return self._wrap(cols)
        if isinstance(o, ndarray) and o.ndim == 2:
            return self._wrap([go(a, o[:, j], self._index) for j, a in enumerate(self._arrs)])
        if is_seq(o) and not (isinstance(o, ndarray) and o.ndim == 0) or isinstance(o, Index):
            raise Unsupported("DataFrame op sequence")
        return self._wrap([go(a, o, self._index) for a in self._arrs])

    def _flex(self, o, op, axis="columns", fill_value=None, swap=False):
        if isinstance(o, Series) and axis in (0, "index"):
            r = [Series._mk(a, self._index)._flex(o, op, fill_value, swap) for a in self._arrs]
            return DataFrame._mk(zip(self._names, [x.arr for x in r]), r[0].index if r else self._index)
        if isinstance(o, DataFrame) and fill_value is not None:
            if len(o._names) != len(self._names):
                raise Unsupported("DataFrame flex op fill_value")
            r = [self[n]._flex(o[n], op, fill_value, swap) for n in self._names]
            return DataFrame._mk(zip(self._names, [x.arr for x in r]), r[0].index)
        if fill_value is not None:
            r = [Series._mk(a, self._index)._flex(o, op, fill_value, swap) for a in self._arrs]
            return self._wrap([x.arr for x in r])
        return self._binop(o, op, swap)

    def __neg__(self):
        return self._wrap([-a for a in self._arrs])

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return self.abs()

    def __invert__(self):
        return self._wrap([~a for a in self._arrs])

    def groupby(self, by=None, axis=no_default, level=None, as_index=True, sort=True, group_keys=True,
                observed=no_default, dropna=True):
        return FrameGroupBy(self, by, level, sort, dropna, as_index)

    def __getattr__(self, k):
        if k.startswith("_sx") or k.startswith("__"):
            raise AttributeError(k)
        names = self.__dict__.get("_names", ())
        if builtins.any(isinstance(n, str) and n == k for n in names):
            return self[k]
        from . import known_names as K

        if k in K.KNOWN_FRAME:
            raise Unsupported("DataFrame.%s" % k)
        raise AttributeError("'DataFrame' object has no attribute %r" % k)


class FrameGroupBy:
    def __init__(self, obj, by, level, sort, dropna, as_index):
        if not as_index:
            raise Unsupported("groupby as_index=False")
        self.obj, self.by, self.level, self.sort, self.dropna = obj, by, level, sort, dropna
        if isinstance(by, list):
            if len(by) != 1:
                raise Unsupported("groupby several keys")
            self.by = by[0]
        self.key = None
        if isinstance(self.by, str):
            self.key = self.by
            self.by = obj[self.by]

    def _col(self, n):
        return self.obj[n].groupby(self.by, level=self.level, sort=self.sort, dropna=self.dropna)

    def __getitem__(self, k):
        if isinstance(k, list):
            raise Unsupported("groupby column list")
        return self._col(k)

    def __getattr__(self, k):
        if k in ("sum", "mean", "min", "max", "first", "last", "count", "agg", "tail", "head"):
            def f(*a, **kw):
                cols = [(n, getattr(self._col(n), k)(*a, **kw)) for n in self.obj._names
                        if not (self.key is not None and n == self.key)]
                return DataFrame._mk([(n, s.arr) for n, s in cols], cols[0][1].index)
            return f
        if k.startswith("__"):
            raise AttributeError(k)
        if self.__dict__.get("obj") is not None and self.obj._pos(k):
            return self._col(k)
        raise Unsupported("DataFrameGroupBy.%s" % k)


def _install_frame_ops():
    names = ["add", "sub", "mul", "truediv", "floordiv", "mod", "pow"]
    for nm in names + ["and", "or", "xor"]:
        setattr(DataFrame, "__%s__" % nm, lambda s, o, op=nm: s._binop(o, op))
        setattr(DataFrame, "__r%s__" % nm, lambda s, o, op=nm: s._binop(o, op, True))
    for nm in CMP:
        setattr(DataFrame, "__%s__" % nm, lambda s, o, op=nm: s._binop(o, op))

    def mk(op, swap):
        def f(self, other, axis="columns", level=None, fill_value=None):
            return self._flex(other, op, axis, fill_value, swap)
        return f
    for nm in names + list(CMP):
        setattr(DataFrame, nm, mk(nm, False))
    for nm in names:
        setattr(DataFrame, "r" + nm, mk(nm, True))
    DataFrame.div = DataFrame.divide = DataFrame.truediv
    DataFrame.multiply, DataFrame.subtract = DataFrame.mul, DataFrame.sub
    for nm in ("sum", "mean", "median", "min", "max", "any", "all", "count", "std", "var", "prod", "idxmax",
               "idxmin", "nunique"):
        def f(self, axis=0, nm=nm, **k):
            return self._reduce(nm, axis, **k)
        setattr(DataFrame, nm, f)


_install_frame_ops()
P.DataFrame = DataFrame


def _column_array(v, index):
    """array for a frame column from v, aligned to index; always a fresh copy"""
    if isinstance(v, DataFrame):
        if len(v._names) != 1:
            raise ValueError("Columns must be same length as key")
        v = Series._mk(v._arrs[0], v._index)
    if isinstance(v, Series):
        if v.index is index or v.index.equals(index):
            return v.arr.copy()
        return v.reindex(index).arr
    if isinstance(v, (range,)):
        v = list(v)
    if is_ea(v):
        a = v.copy()
    elif is_seq(v) and not (isinstance(v, ndarray) and v.ndim == 0) or isinstance(v, Index):
        a = sanitize(v, None, None, copy=True)
    elif hasattr(v, "__iter__") and not isinstance(v, (str, dict)) and not getattr(v, "_sx_stairs", False) \
            and not isinstance(v, (SymNum, SymBool, Interval)):
        a = sanitize(list(v))
    else:
        return sanitize(v, None, len(index))
    if len(a) != len(index):
        raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(a), len(index)))
    return a


def _union_indexes(idxs, sort=True):
    out = idxs[0]
    for i in idxs[1:]:
        if i is out or out.equals(i):
            continue
        out = out.union(i) if sort else out.union(i, sort=False)
    return out


# ------------------------------------------------------------------ concat
def concat(objs, axis=0, join="outer", ignore_index=False, keys=None, levels=None, names=None,
           verify_integrity=False, sort=False, copy=None):
    if isinstance(objs, dict):
        if keys is None:
            keys = list(objs)
        objs = [objs[k] for k in keys]
    objs = list(objs)
    if isinstance(keys, (Index,)):
        keys = list(keys)
    if not objs:
        raise ValueError("No objects to concatenate")
    if keys is not None and builtins.any(o is None for o in objs):
        raise Unsupported("concat keys with None")
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError("All objects passed were None")
    for o in objs:
        if not isinstance(o, (Series, DataFrame)):
            raise TypeError("cannot concatenate object of type '%s'; only Series and DataFrame objs are valid"
                            % type(o))
    if axis in (1, "columns"):
        cols, auto = [], 0
        named = builtins.any(isinstance(o, DataFrame) or o.name is not None for o in objs)
        idx = objs[0].index
        same = builtins.all(o.index is idx or (o.index.equals(idx)) for o in objs[1:])
        if not same:
            if join == "inner":
                for o in objs[1:]:
                    idx = idx.intersection(o.index)
            else:
                for o in objs[1:]:
                    idx = idx.union(o.index, sort=None if sort else False)
                if builtins.all(isinstance(o.index, (RangeIndex, DatetimeIndex)) for o in objs):
                    idx = idx._try_sort()
        for j, o in enumerate(objs):
            if isinstance(o, Series):
                nm = o.name
                if nm is None:
                    nm, auto = auto, auto + 1
                if keys is not None:
                    nm = keys[j]
                src = [(nm, o.arr)]
            else:
                if keys is not None:
                    raise Unsupported("concat keys of frames along axis 1")
                src = list(zip(o._names, o._arrs))
            for nm, a in src:
                if o.index is idx or o.index.equals(idx):
                    cols.append((nm, a.copy()))
                else:
                    cols.append((nm, Series._mk(a, o.index).reindex(idx).arr))
        if ignore_index:
            cols = [(i, a) for i, (_, a) in enumerate(cols)]
        return DataFrame._mk(cols, idx)
    if keys is not None:
        raise Unsupported("concat keys")
    if ignore_index:
        idx = RangeIndex(builtins.sum(len(o) for o in objs))
    else:
        idx = objs[0].index
        if len(objs) > 1:
            idx = idx.append([o.index for o in objs[1:]])
        elif True:
            idx = idx.copy() if not isinstance(idx, IntervalIndex) else idx
    if builtins.all(isinstance(o, Series) for o in objs):
        nms = {id(o.name) if not isinstance(o.name, (str, type(None))) else o.name for o in objs}
        nm = objs[0].name if len(nms) == 1 else None
        arrs = [o.arr for o in objs]
        return Series._mk(concat_arrays(arrs) if len(arrs) > 1 else arrs[0].copy(), idx, nm)
    fr = [o if isinstance(o, DataFrame) else o.to_frame() for o in objs]
    names = []
    for f in fr:
        for n in f._names:
            if not builtins.any(_lab_eq(n, x) for x in names):
                names.append(n)
    cols = []
    for n in names:
        parts = []
        for f in fr:
            p = f._pos(n)
            parts.append(f._arrs[p[0]] if p else ndarray([N.nan_num()] * len(f), float64_dt))
        cols.append((n, concat_arrays(parts)))
    return DataFrame._mk(cols, idx)


# ------------------------------------------------------------------ api.types
def is_list_like(obj, allow_sets=True):
    if isinstance(obj, (str, bytes, type)):
        return False
    if isinstance(obj, ndarray):
        return obj.ndim > 0
    if not allow_sets and isinstance(obj, (set, frozenset)):
        return False
    return hasattr(type(obj), "__iter__")


def is_dict_like(obj):
    return builtins.all(hasattr(obj, a) for a in ("__getitem__", "keys", "__contains__")) and not isinstance(obj, type)


def is_number(obj):
    return isinstance(obj, (SymNum, int, float, complex, E.Fraction)) and not isinstance(obj, SymBool)


def is_float(obj):
    return isinstance(obj, float) or (isinstance(obj, SymNum) and obj.kind == "f")


def is_integer(obj):
    return (isinstance(obj, int) and not isinstance(obj, bool)) or (isinstance(obj, SymNum) and obj.kind == "i")


def is_bool(obj):
    return isinstance(obj, (bool, SymBool))


def is_scalar(obj):
    return obj is None or isinstance(obj, (
        int, float, complex, str, bytes, bool, SymNum, SymBool, Timestamp, Timedelta, P.DT64, P.TD64,
        P.PyDatetime, P.PyTimedelta, Interval, Period, E.Fraction)) or obj is NaT or obj is NA


def _dtype_of(x):
    if isinstance(x, IntervalIndex):
        return x.dtype
    if isinstance(x, (Series, Index, ndarray)):
        return x.dtype
    if is_ea(x):
        return x.dtype
    if x is None or isinstance(x, DataFrame):
        return None
    try:
        return P.resolve_dtype(x)
    except TypeError:
        return None


def _kind_test(kinds, tz=None):
    def f(x):
        d = _dtype_of(x)
        if d is None or getattr(d, "_sx_extdtype", False) or not isinstance(d, N.DType) or isinstance(
                d, P.IntervalDtype):
            return False
        if d.kind not in kinds:
            return False
        if tz is not None and d.kind == "M":
            return (d.tz is not None) == tz
        return True
    return f


is_numeric_dtype = _kind_test("fib")
is_float_dtype = _kind_test("f")
is_integer_dtype = _kind_test("i")
is_bool_dtype_ = _kind_test("b")
is_object_dtype = _kind_test("O")
is_datetime64_any_dtype = _kind_test("M")
is_datetime64_dtype = _kind_test("M", tz=False)
is_datetime64tz_dtype = _kind_test("M", tz=True)
is_timedelta64_dtype = _kind_test("m")
is_datetime64_ns_dtype = is_datetime64_any_dtype
is_timedelta64_ns_dtype = is_timedelta64_dtype
is_bool_dtype = is_bool_dtype_


def is_interval_dtype(x):
    return isinstance(_dtype_of(x), P.IntervalDtype)


def is_extension_array_dtype(x):
    d = _dtype_of(x)
    return bool(getattr(d, "_sx_extdtype", False)) or isinstance(d, P.IntervalDtype) or (
        d is not None and d.kind == "M" and d.tz is not None)


def is_hashable(x):
    try:
        hash(x)
    except TypeError:
        return False
    return True


def is_iterator(x):
    return hasattr(x, "__next__")


def is_array_like(x):
    return is_list_like(x) and hasattr(x, "dtype")


def is_string_dtype(x):
    return is_object_dtype(x)


class _Accessor:
    def __init__(self, name, cls):
        self.name, self.cls = name, cls

    def __get__(self, obj, owner):
        if obj is None:
            return self.cls
        a = self.cls(obj)
        obj.__dict__[self.name] = a
        return a


def register_series_accessor(name):
    def deco(cls):
        setattr(Series, name, _Accessor(name, cls))
        return cls
    return deco


def to_datetime(x, *a, utc=None, **k):
    if isinstance(x, (Series, Index, ndarray, list, tuple)):
        if isinstance(x, Series):
            return Series._mk(to_datetime(list(x)).arr, x.index, x.name)
        cells = [Timestamp(v) if not P.isna(v) else NaT for v in list(x)]
        return DatetimeIndex(cells)
    if P.isna(x):
        return NaT
    return Timestamp(x)


def to_timedelta(x, unit=None, errors="raise"):
    if isinstance(x, Series):
        return Series._mk(to_timedelta(list(x), unit).arr, x.index, x.name)
    if isinstance(x, (Index, ndarray, list, tuple)):
        return TimedeltaIndex([Timedelta(v, unit) if unit else Timedelta(v) for v in list(x)])
    return Timedelta(x, unit) if unit else Timedelta(x)


def to_numeric(x, *a, **k):
    if isinstance(x, Series):
        return x.astype(float64_dt) if x.dtype.kind not in "fi" else x
    raise Unsupported("to_numeric")


def unique(x):
    return Index(x).unique().values


def factorize(*a, **k):
    raise Unsupported("factorize")


def _assert(c, msg="not equal"):
    if not c:
        raise AssertionError(msg)


def _close(x, y, exact, rtol=1e-5, atol=1e-8):
    nx, ny = P.isna(x), P.isna(y)
    if bool(nx) or bool(ny):
        return bool(nx) and bool(ny)
    a, b = SymNum.of(x), SymNum.of(y)
    if a is None or b is None or exact:
        return bool(x == y)
    if bool(SymBool(b_or(a.pinf, a.ninf, b.pinf, b.ninf))):
        return bool(a == b)
    return bool(abs(a - b) <= atol + rtol * abs(b))


def assert_index_equal(left, right, exact="equiv", check_names=True, check_exact=True, **k):
    _assert(isinstance(left, Index) and isinstance(right, Index))
    _assert(len(left) == len(right), "Index length are different")
    if isinstance(left, IntervalIndex) or isinstance(right, IntervalIndex):
        _assert(left.equals(right))
    else:
        if exact:
            _assert(left.dtype == right.dtype or not exact, "Index dtype differ %s %s" % (left.dtype, right.dtype))
        for x, y in zip(left, right):
            _assert(_close(x, y, check_exact))
    if check_names:
        _assert(left.name == right.name, "names differ")


def assert_series_equal(left, right, check_dtype=True, check_index_type="equiv", check_series_type=True,
                        check_names=True, check_exact=False, check_index=True, check_freq=True, rtol=1e-5,
                        atol=1e-8, **k):
    _assert(isinstance(left, Series) and isinstance(right, Series), "Series Expected")
    _assert(len(left) == len(right), "Series length are different")
    if check_index:
        assert_index_equal(left.index, right.index, exact=check_index_type, check_names=check_names,
                           check_exact=check_exact)
    if check_dtype:
        _assert(left.dtype == right.dtype, "dtype differ %s %s" % (left.dtype, right.dtype))
    for x, y in zip(left, right):
        _assert(_close(x, y, check_exact, rtol, atol), "Series are different")
    if check_names:
        _assert(left.name == right.name, "names differ")


def assert_frame_equal(left, right, check_dtype=True, check_index_type="equiv", check_names=True, check_exact=False,
                       rtol=1e-5, atol=1e-8, **k):
    _assert(isinstance(left, DataFrame) and isinstance(right, DataFrame))
    _assert(left.shape == right.shape, "shape mismatch")
    for i, n in enumerate(left._names):
        _assert(_lab_eq(n, right._names[i]), "columns differ")
        assert_series_equal(left._col(i), right._col(i), check_dtype=check_dtype, check_names=False,
                            check_index_type=check_index_type, check_exact=check_exact, rtol=rtol, atol=atol)


# ------------------------------------------------------------------ module
def build_module():
    from . import known_names as K

    def stub(mod, known):
        def __getattr__(k):
            if k.startswith("__"):
                raise AttributeError(k)
            if k in known:
                raise Unsupported("%s.%s" % (mod.__name__, k))
            raise AttributeError("module %r has no attribute %r" % (mod.__name__, k))
        mod.__getattr__ = __getattr__
        mod.__path__ = []

    m = types.ModuleType("pandas")
    for k in ("Series", "Index", "RangeIndex", "DatetimeIndex", "TimedeltaIndex", "Interval", "IntervalIndex",
              "Period", "PeriodIndex", "period_range", "date_range", "timedelta_range", "interval_range",
              "Timestamp", "Timedelta", "NaT", "NA", "isna", "isnull", "notna", "notnull"):
        setattr(m, k, getattr(P, k))
    m.DataFrame, m.concat = DataFrame, concat
    m.to_datetime, m.to_timedelta, m.to_numeric, m.unique, m.factorize = (
        to_datetime, to_timedelta, to_numeric, unique, factorize)
    m.Float64Index = m.Int64Index = Index
    m.__version__ = "2.2.3"
    subs = {}

    def sub(name, known=(), **attrs):
        s = types.ModuleType("pandas." + name)
        for k, v in attrs.items():
            setattr(s, k, v)
        stub(s, set(known))
        subs["pandas." + name] = s
        parent, _, last = name.rpartition(".")
        setattr(subs["pandas." + parent] if parent else m, last, s)
        return s

    sub("api")
    ty = {k: v for k, v in globals().items() if k.startswith("is_") and k not in ("is_seq", "is_ea", "is_bool_arr")}
    sub("api.types", K.KNOWN_API_TYPES, pandas_dtype=P.resolve_dtype, **ty)
    sub("api.extensions", ("ExtensionScalarOpsMixin", "register_dataframe_accessor", "register_index_accessor"),
        ExtensionArray=P.ExtensionArray, ExtensionDtype=P.ExtensionDtype, take=P.ea_take, no_default=no_default,
        register_extension_dtype=P.register_extension_dtype, register_series_accessor=register_series_accessor)
    sub("core")
    sub("core.dtypes")
    sub("core.dtypes.inference", K.KNOWN_API_TYPES, **ty)
    sub("core.dtypes.common", K.KNOWN_API_TYPES, **ty)
    sub("core.dtypes.missing", (), isna=P.isna, notna=P.notna)
    sub("core.series", (), Series=Series)
    sub("core.frame", (), DataFrame=DataFrame)
    sub("plotting", (), register_matplotlib_converters=lambda *a, **k: None,
        deregister_matplotlib_converters=lambda *a, **k: None)
    sub("testing", ("assert_extension_array_equal",), assert_series_equal=assert_series_equal,
        assert_frame_equal=assert_frame_equal, assert_index_equal=assert_index_equal)
    sub("tseries", ())
    sub("tseries.offsets", ("Day", "Hour", "Minute", "DateOffset", "MonthEnd", "MonthBegin"))
    sub("errors", (), **{})
    sub("_testing", (), assert_series_equal=assert_series_equal, assert_frame_equal=assert_frame_equal,
        assert_index_equal=assert_index_equal)
    from contextlib import contextmanager

    @contextmanager
    def option_context(*a):
        yield
    m.option_context = option_context
    m.set_option = lambda *a: None
    m.options = types.SimpleNamespace()
    stub(m, K.KNOWN_PANDAS)
    return m, subs
