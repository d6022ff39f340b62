"""Symbolic models of the datetime-like scalars of pandas, numpy and the stdlib.

All carry a payload ``n`` (SymNum, integer nanoseconds; UTC for timestamps)."""
import datetime as _dt
import re
from fractions import Fraction

from .engine import SymBool, SymNum, Unsupported, b_and, b_not, r_eq, r_le, r_lt

NS = {
    "D": 86400 * 10**9, "d": 86400 * 10**9, "day": 86400 * 10**9, "days": 86400 * 10**9,
    "h": 3600 * 10**9, "H": 3600 * 10**9, "hour": 3600 * 10**9, "hours": 3600 * 10**9,
    "hr": 3600 * 10**9, "m": 60 * 10**9, "min": 60 * 10**9, "T": 60 * 10**9,
    "minute": 60 * 10**9, "minutes": 60 * 10**9, "s": 10**9, "S": 10**9, "sec": 10**9,
    "second": 10**9, "seconds": 10**9, "ms": 10**6, "L": 10**6, "milliseconds": 10**6,
    "us": 10**3, "microseconds": 10**3, "ns": 1, "nanoseconds": 1, "N": 1,
    "W": 7 * 86400 * 10**9, "weeks": 7 * 86400 * 10**9,
}


def num(x):
    return SymNum.of(x)


def ns_num(x):
    n = SymNum.of(x)
    return n.with_(kind="i")


class NaTType:
    def _f(self, o):
        return False

    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = _f

    def __ne__(self, o):
        return True

    def __add__(self, o):
        return self

    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __add__

    def __hash__(self):
        return 1

    def __bool__(self):
        return True

    value = -(2**63)

    def __repr__(self):
        return "NaT"

    def isoformat(self, *a):
        return "NaT"


NaT = NaTType()


class _Ordered:
    """comparison by payload; subclasses define _other_payload(o) -> SymNum | None"""

    def _cmp(self, o, f, name):
        if o is NaT:
            return name == "ne"
        p = self._cmp_payload(o)
        if p is None:
            if name == "eq":
                return self._eq_foreign(o)
            if name == "ne":
                r = self._eq_foreign(o)
                return r if r is NotImplemented else not r
            return NotImplemented
        return SymBool(f(self.n.r, p.r), np=self._np)

    def _eq_foreign(self, o):
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, r_lt, "lt")

    def __le__(self, o):
        return self._cmp(o, r_le, "le")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: r_lt(b, a), "gt")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: r_le(b, a), "ge")

    def __eq__(self, o):
        return self._cmp(o, r_eq, "eq")

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: b_not(r_eq(a, b)), "ne")

    def __hash__(self):
        return 0

    _np = False


# ------------------------------------------------------------------ durations
_TD_RE = re.compile(
    r"^\s*([+-]?)\s*(?:(\d+(?:\.\d*)?)\s*(?:days?|D)\s*,?\s*)?"
    r"(?:([+-]?)(\d+):(\d+)(?::(\d+(?:\.\d+)?))?)?\s*$")


def parse_td(s):
    m = _TD_RE.match(s)
    if m and (m.group(2) or m.group(4)):
        tot = Fraction(0)
        if m.group(2):
            tot += Fraction(m.group(2)) * NS["D"]
        if m.group(1) == "-":
            tot = -tot
        if m.group(4):
            t = (Fraction(m.group(4)) * NS["h"] + Fraction(m.group(5)) * NS["min"]
                 + Fraction(m.group(6) or 0) * NS["s"])
            tot += -t if m.group(3) == "-" or (m.group(1) == "-" and not m.group(2)) else t
        return int(tot)
    tot, pos = Fraction(0), 0
    neg = False
    s2 = s.strip()
    if s2.startswith("-"):
        neg, s2 = True, s2[1:].strip()
    for m in re.finditer(r"(\d+(?:\.\d*)?|\.\d+)?\s*([A-Za-z]+)\s*", s2):
        if m.start() != pos or m.group(2) not in NS:
            raise ValueError("unit abbreviation w/o a number: %s" % s)
        tot += Fraction(m.group(1) or 1) * NS[m.group(2)]
        pos = m.end()
    if pos != len(s2) or not s2:
        raise ValueError("invalid timedelta %r" % s)
    return int(-tot if neg else tot)


def td_payload(o):
    """nanoseconds of a duration-like scalar or None"""
    if isinstance(o, (Timedelta, TD64, PyTimedelta)):
        return o.n
    if isinstance(o, _dt.timedelta):
        return SymNum(
            (o.days * 86400 + o.seconds) * 10**9 + o.microseconds * 1000, kind="i")
    return None


class _TDBase(_Ordered):
    def _cmp_payload(self, o):
        return td_payload(o)

    def _wrap(self, n):
        return type(self)._make(n)

    def __add__(self, o):
        p = td_payload(o)
        if p is not None:
            return self._res(o)(self.n + p)
        if o is NaT:
            return NaT
        return NotImplemented

    def _res(self, o):
        # result class when mixing flavours: pandas wins
        if isinstance(self, Timedelta) or isinstance(o, Timedelta):
            return Timedelta._make
        if isinstance(self, PyTimedelta):
            return PyTimedelta._make
        return TD64._make

    def __radd__(self, o):
        p = td_payload(o)
        if p is not None:
            return self._res(o)(p + self.n)
        return NotImplemented

    def __sub__(self, o):
        p = td_payload(o)
        if p is not None:
            return self._res(o)(self.n - p)
        return NotImplemented

    def __rsub__(self, o):
        p = td_payload(o)
        if p is not None:
            return self._res(o)(p - self.n)
        return NotImplemented

    def __mul__(self, o):
        m = num(o) if not isinstance(o, (SymBool, bool)) else num(o)
        if m is None:
            return NotImplemented
        if m.nan is not False or m.has_inf():
            if SymBool(m.nan):
                return NaT
            if SymBool(m.isinf()):
                raise OverflowError("cannot convert float infinity to integer")
        return self._wrap((self.n * m).with_(kind="i", nan=False))

    __rmul__ = __mul__

    def __truediv__(self, o):
        p = td_payload(o)
        if p is not None:
            return self.n.with_(kind="f") / p.with_(np=False)
        m = num(o)
        if m is None:
            return NotImplemented
        if SymBool(m.nan):
            return NaT
        return self._wrap((self.n / m.with_(np=False)).with_(kind="i"))

    def __rtruediv__(self, o):
        p = td_payload(o)
        if p is not None:
            return p.with_(kind="f") / self.n.with_(np=False)
        return NotImplemented

    def __floordiv__(self, o):
        p = td_payload(o)
        if p is not None:
            return (self.n // p.with_(np=False)).with_(kind="i")
        return NotImplemented

    def __neg__(self):
        return self._wrap(-self.n)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._wrap(abs(self.n))

    def __bool__(self):
        return bool(self.n != 0)


class Timedelta(_TDBase):
    def __init__(self, value=None, unit=None, **kw):
        if value is None:
            tot = 0
            for k, v in kw.items():
                if k not in NS:
                    raise ValueError(k)
                tot = tot + num(v) * NS[k]
            self.n = ns_num(tot)
            return
        p = td_payload(value)
        if p is not None:
            self.n = ns_num(p)
        elif isinstance(value, str):
            self.n = SymNum(parse_td(value), kind="i")
        elif num(value) is not None:
            self.n = ns_num(num(value) * NS[unit or "ns"])
        else:
            raise ValueError("Value must be Timedelta, string, integer, float, ...")

    @classmethod
    def _make(cls, n):
        o = cls.__new__(cls)
        o.n = n.with_(kind="i", np=True)
        return o

    def _eq_foreign(self, o):
        if num(o) is not None:
            return False
        return NotImplemented

    @property
    def value(self):
        return self.n

    def total_seconds(self):
        return (self.n / SymNum(10**9)).with_(kind="f", np=False)

    def to_timedelta64(self):
        return TD64._make(self.n)

    to_numpy = to_timedelta64

    def to_pytimedelta(self):
        return PyTimedelta._make(self.n)

    def __repr__(self):
        return "Timedelta(%r)" % (self.n,)


class TD64(_TDBase):
    _np = True

    @classmethod
    def _make(cls, n):
        o = cls.__new__(cls)
        o.n = n.with_(kind="i", np=True)
        return o

    def __init__(self, value, unit="ns"):
        p = td_payload(value)
        self.n = ns_num(p) if p is not None else ns_num(num(value) * NS[unit])

    def astype(self, t):
        return self

    def __repr__(self):
        return "timedelta64(%r)" % (self.n,)


class PyTimedelta(_TDBase):
    @classmethod
    def _make(cls, n):
        o = cls.__new__(cls)
        o.n = n.with_(kind="i", np=True)
        return o

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0,
                 hours=0, weeks=0):
        self.n = ns_num(
            num(days) * NS["D"] + num(seconds) * NS["s"] + num(microseconds) * 1000
            + num(milliseconds) * NS["ms"] + num(minutes) * NS["min"] + num(hours) * NS["h"]
            + num(weeks) * NS["W"])

    def total_seconds(self):
        return (self.n / SymNum(10**9)).with_(kind="f", np=False)

    def __repr__(self):
        return "timedelta(%r)" % (self.n,)


# ------------------------------------------------------------------ instants
def tz_key(tz):
    if tz is None:
        return None
    k = getattr(tz, "zone", None) or getattr(tz, "key", None)
    if k is None:
        k = str(tz)
    return k


class TZ:
    """minimal tzinfo stand-in identified by name"""

    def __init__(self, name):
        self.zone = name

    def __eq__(self, o):
        return tz_key(o) == self.zone

    def __hash__(self):
        return hash(self.zone)

    def __str__(self):
        return self.zone

    __repr__ = __str__


def as_tz(tz):
    if tz is None or isinstance(tz, TZ):
        return tz
    k = tz if isinstance(tz, str) else tz_key(tz)
    if k in ("UTC", "utc", "Etc/UTC", "UTC+00:00", "+00:00", "Z"):
        k = "UTC"
    if re.match(r"^[+-]\d\d:\d\d$", k):
        k = "UTC" + k
    return TZ(k)


def _pyzone(tz):
    k = tz_key(tz)
    if k == "UTC":
        return _dt.timezone.utc
    m = re.match(r"^(?:UTC|pytz\.FixedOffset)?\(?([+-])?(\d+):?(\d\d)?\)?$", k)
    if m:
        if k.startswith("pytz"):
            mins = int(re.search(r"-?\d+", k).group())
        else:
            mins = int(m.group(2)) * 60 + int(m.group(3) or 0)
            if m.group(1) == "-":
                mins = -mins
        return _dt.timezone(_dt.timedelta(minutes=mins))
    import zoneinfo

    return zoneinfo.ZoneInfo(k)


_EPOCH = _dt.datetime(1970, 1, 1)
_EPOCH_UTC = _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)


def _naive_ns(d):
    delta = d - _EPOCH
    return (delta.days * 86400 + delta.seconds) * 10**9 + delta.microseconds * 1000


def _utc_ns(d):
    delta = d - _EPOCH_UTC
    return (delta.days * 86400 + delta.seconds) * 10**9 + delta.microseconds * 1000


def parse_ts(s):
    """-> (ns, tz)"""
    t = s.strip()
    m = re.match(
        r"^(\d{4})(?:[-/](\d{1,2})(?:[-/](\d{1,2}))?)?"
        r"(?:[T ](\d{1,2})(?::(\d{1,2})(?::(\d{1,2})(?:\.(\d+))?)?)?)?\s*(Z|[+-]\d\d:?\d\d)?$", t)
    if not m:
        for f in ("%d/%m/%Y", "%d %b %Y", "%b %d %Y"):
            try:
                return _naive_ns(_dt.datetime.strptime(t, f)), None
            except ValueError:
                pass
        raise ValueError("could not convert string to Timestamp: %r" % s)
    y, mo, d, h, mi, se = [int(x) if x else None for x in m.groups()[:6]]
    base = _naive_ns(_dt.datetime(y, mo or 1, d or 1, h or 0, mi or 0, se or 0))
    if m.group(7):
        base += int((m.group(7) + "000000000")[:9])
    tz = None
    if m.group(8):
        z = m.group(8)
        if z == "Z":
            tz = as_tz("UTC")
        else:
            mins = int(z[1:3]) * 60 + int(z[-2:])
            if z[0] == "-":
                mins = -mins
            base -= mins * NS["min"]
            tz = as_tz("UTC%s:%s" % (z[:3], z[-2:]))
    return base, tz


def localize_ns(ns, tz):
    d = _EPOCH + _dt.timedelta(microseconds=ns // 1000)
    d = d.replace(tzinfo=_pyzone(tz))
    return _utc_ns(d.astimezone(_dt.timezone.utc)) + ns % 1000


def wall_ns(ns, tz):
    """wall-clock nanoseconds of UTC instant ns in tz (concrete)"""
    d = (_EPOCH_UTC + _dt.timedelta(microseconds=ns // 1000)).astimezone(_pyzone(tz))
    return _naive_ns(d.replace(tzinfo=None)) + ns % 1000


_TRANS = {}


def transitions(tz):
    """utc instants (ns) at which the zone's offset changes, with the offsets before and after, 2017-2024"""
    k = tz_key(tz)
    if k not in _TRANS:
        z, out = _pyzone(tz), []
        h = _dt.timedelta(hours=1)
        t = _dt.datetime(2017, 1, 1, tzinfo=_dt.timezone.utc)
        end = _dt.datetime(2024, 1, 1, tzinfo=_dt.timezone.utc)
        off = lambda u: u.astimezone(z).utcoffset()
        base = _td_ns(off(t))
        if _fixed(z):
            t = end
        prev = base
        while t < end:
            n = t + 24 * h
            if off(n) != off(t):
                lo, hi = t, n
                while hi - lo > _dt.timedelta(seconds=1):
                    m = lo + (hi - lo) / 2
                    m = m.replace(microsecond=0)
                    if m == lo:
                        break
                    lo, hi = (lo, m) if off(m) != off(t) else (m, hi)
                cur = _td_ns(off(n))
                out.append((_utc_ns(hi), prev, cur))
                prev = cur
            t = n
        _TRANS[k] = base, out
    return _TRANS[k]


def _fixed(z):
    return isinstance(z, _dt.timezone)


def _td_ns(d):
    return (d.days * 86400 + d.seconds) * 10**9 + d.microseconds * 1000


def wall_of(n, tz):
    """wall-clock payload of an instant, possibly symbolic (offsets of the years 2017-2024)"""
    if n.is_concrete():
        return n.with_(r=wall_ns(n.r, tz))
    from .engine import r_add, r_ite

    off, trans = transitions(tz)
    r = off
    for t, _, after in trans:
        r = r_ite(r_lt(n.r, Fraction(t)), r, after)
    return n.with_(r=r_add(n.r, r))


def utc_of_wall(w, tz, strict=True):
    """the instant of a wall-clock time; strict: an error where it is ambiguous or does not exist"""
    if w.is_concrete() and not strict:
        return w.with_(r=localize_ns(w.r, tz))
    from .engine import r_add, r_ite

    off, trans = transitions(tz)
    r = -off
    for t, before, after in trans:
        lo, hi = t + min(before, after), t + max(before, after)
        if strict and bool(SymBool(b_and(b_not(r_lt(w.r, Fraction(lo))), r_lt(w.r, Fraction(hi))))):
            raise ValueError("%s time" % ("Ambiguous" if after < before else "NonExistent"))
        # without fold: the earlier offset for both kinds
        r = r_ite(r_lt(w.r, Fraction(hi)), r, -after)
    return w.with_(r=r_add(w.r, r))


def dt_payload(o):
    """(SymNum utc ns, tz) of an instant-like scalar or None"""
    if isinstance(o, (Timestamp, DT64, PyDatetime)):
        return o.n, o.tz
    if isinstance(o, _dt.datetime):
        if o.tzinfo is None:
            return SymNum(_naive_ns(o), kind="i"), None
        return SymNum(_utc_ns(o.astimezone(_dt.timezone.utc)), kind="i"), as_tz(o.tzinfo)
    return None


class _DTBase(_Ordered):
    tz = None

    @property
    def tzinfo(self):
        return self.tz

    def _cmp_payload(self, o):
        p = dt_payload(o)
        if p is None:
            return None
        if (p[1] is None) != (self.tz is None):
            return None
        return p[0]

    def _eq_foreign(self, o):
        if dt_payload(o) is not None or num(o) is not None or isinstance(o, str):
            return False
        return NotImplemented

    def _cmp(self, o, f, name):
        p = dt_payload(o)
        if p is not None and (p[1] is None) != (self.tz is None) and name not in ("eq", "ne"):
            raise TypeError("Cannot compare tz-naive and tz-aware timestamps")
        return super()._cmp(o, f, name)

    def _with(self, n, o=None):
        cls = Timestamp if isinstance(self, Timestamp) or isinstance(o, Timedelta) else type(self)
        r = cls.__new__(cls)
        r.n, r.tz = n.with_(kind="i", np=True), self.tz
        return r

    def __add__(self, o):
        p = td_payload(o)
        if p is not None:
            if self._walls(o):
                return self._with(utc_of_wall(wall_of(self.n, self.tz) + p, self.tz, False), o)
            return self._with(self.n + p, o)
        if o is NaT:
            return NaT
        if num(o) is not None and isinstance(self, Timestamp):
            raise TypeError(
                "Addition/subtraction of integers and integer-arrays with Timestamp is no "
                "longer supported.  Instead of adding/subtracting `n`, use `n * obj.freq`")
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        p = td_payload(o)
        if p is not None:
            if self._walls(o):
                return self._with(utc_of_wall(wall_of(self.n, self.tz) - p, self.tz, False), o)
            return self._with(self.n - p, o)
        p = dt_payload(o)
        if p is not None:
            if (p[1] is None) != (self.tz is None):
                raise TypeError("Cannot subtract tz-naive and tz-aware datetime-like objects.")
            if self._walls(o) and tz_key(self.tz) == tz_key(p[1]):
                return self._diff(o)(wall_of(self.n, self.tz) - wall_of(p[0], self.tz))
            return self._diff(o)(self.n - p[0])
        if num(o) is not None and isinstance(self, Timestamp):
            raise TypeError(
                "Addition/subtraction of integers and integer-arrays with Timestamp is no "
                "longer supported.  Instead of adding/subtracting `n`, use `n * obj.freq`")
        return NotImplemented

    def _walls(self, o):
        """python's datetime arithmetic is on wall-clock times"""
        return isinstance(self, PyDatetime) and self.tz is not None and isinstance(
            o, (PyDatetime, PyTimedelta, _dt.datetime, _dt.timedelta)) and not isinstance(o, Timedelta)

    def _diff(self, o):
        if isinstance(self, Timestamp) or isinstance(o, Timestamp):
            return Timedelta._make
        if isinstance(self, DT64):
            return TD64._make
        return PyTimedelta._make

    def __rsub__(self, o):
        p = dt_payload(o)
        if p is not None:
            if (p[1] is None) != (self.tz is None):
                raise TypeError("Cannot subtract tz-naive and tz-aware datetime-like objects.")
            return self._diff(o)(p[0] - self.n)
        return NotImplemented


class Timestamp(_DTBase):
    def __new__(cls, value=None, *args, tz=None, **kw):
        if value is NaT or (isinstance(value, float) and value != value):
            return NaT
        return object.__new__(cls)

    def __init__(self, value=None, *args, tz=None, **kw):
        if value is None or args or kw:
            parts = ([value] if value is not None else []) + list(args)
            if not kw and all(isinstance(p, int) for p in parts):
                d = _dt.datetime(*parts)
            else:
                names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
                d = _dt.datetime(*parts, **{k: v for k, v in kw.items() if k in names})
            ns, ztz = _naive_ns(d), None
            self._set(SymNum(ns, kind="i"), None, tz)
            return
        if isinstance(value, str):
            ns, ztz = parse_ts(value)
            self._set(SymNum(ns, kind="i"), ztz, tz)
            return
        p = dt_payload(value)
        if p is not None:
            self._set(p[0], p[1], tz)
            return
        if isinstance(value, _dt.date):
            d = _dt.datetime(value.year, value.month, value.day)
            self._set(SymNum(_naive_ns(d), kind="i"), None, tz)
            return
        m = num(value)
        if m is not None:
            self.n, self.tz = m.with_(kind="i", np=True), as_tz(tz)
            return
        raise TypeError("Cannot convert input [%r] to Timestamp" % (value,))

    def _set(self, n, vtz, tz):
        if tz is not None:
            tz = as_tz(tz)
            if vtz is None:
                n = utc_of_wall(n, tz)
            vtz = tz
        self.n, self.tz = n.with_(kind="i", np=True), vtz

    @classmethod
    def _make(cls, n, tz=None):
        o = object.__new__(cls)
        o.n, o.tz = n.with_(kind="i", np=True), tz
        return o

    def __str__(self):
        if not self.n.is_concrete() or self.n.nan:
            return repr(self)
        ns = int(self.n.r)
        if self.tz is None:
            d = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=ns // 1000)
        else:
            d = (_dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc) + _dt.timedelta(microseconds=ns // 1000)
                 ).astimezone(_pyzone(self.tz))
        return d.isoformat(" ")

    isoformat = __str__

    @property
    def value(self):
        return self.n

    def to_datetime64(self):
        return DT64._make(self.n)

    to_numpy = to_datetime64
    asm8 = property(to_datetime64)

    def to_pydatetime(self):
        return PyDatetime._make(self.n, self.tz)

    def timestamp(self):
        return (self.n / SymNum(10**9)).with_(kind="f", np=False)

    def tz_localize(self, tz):
        if tz is None:
            if self.tz is None:
                return self
            return Timestamp._make(wall_of(self.n, self.tz))
        return Timestamp(Timestamp._make(self.n), tz=tz)

    def tz_convert(self, tz):
        return Timestamp._make(self.n, as_tz(tz))

    def floor(self, freq):
        u = NS[re.sub(r"^\d+", "", freq)] * int(re.match(r"\d*", freq).group() or 1)
        return Timestamp._make((self.n // u) * u, self.tz)

    def __getattr__(self, k):
        if k in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
            if self.n.is_concrete():
                ns = wall_ns(self.n.r, self.tz) if self.tz else self.n.r
                d = _EPOCH + _dt.timedelta(microseconds=ns // 1000)
                return getattr(d, k)
            raise Unsupported("calendar field of a symbolic timestamp")
        raise AttributeError(k)

    def __repr__(self):
        return "Timestamp(%r, tz=%s)" % (self.n, self.tz)


class DT64(_DTBase):
    _np = True

    def __init__(self, value=None, unit="ns"):
        if isinstance(value, str):
            if value == "NaT":
                raise Unsupported("datetime64('NaT')")
            self.n = SymNum(parse_ts(value)[0], kind="i")
            return
        p = dt_payload(value)
        if p is not None:
            self.n = p[0]
        else:
            self.n = ns_num(num(value) * NS[unit])

    @classmethod
    def _make(cls, n, tz=None):
        o = cls.__new__(cls)
        o.n = n.with_(kind="i", np=True)
        return o

    def astype(self, t):
        return self

    def _cmp(self, o, f, name):
        # numpy datetime64 has no timezone: comparing with an aware instant is an error
        return super()._cmp(o, f, name)

    def __repr__(self):
        return "datetime64(%r)" % (self.n,)


class PyDatetime(_DTBase):
    """stand-in for datetime.datetime instances with a symbolic payload"""

    @classmethod
    def _make(cls, n, tz=None):
        o = cls.__new__(cls)
        o.n, o.tz = n.with_(kind="i", np=True), tz
        return o

    def __repr__(self):
        return "datetime(%r, tz=%s)" % (self.n, self.tz)


def is_instant(x):
    return isinstance(x, (Timestamp, DT64, PyDatetime, _dt.datetime))


def is_duration(x):
    return isinstance(x, (Timedelta, TD64, PyTimedelta, _dt.timedelta))
