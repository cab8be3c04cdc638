"""Environment stubs for symbolic runs.

Only the *environment* of the code under test is replaced, never OpenCLSim
itself: the conversion of a number of seconds to a datetime (C code) and a few
pandas dtype predicates that cannot see a symbolic number in an object column.
All stubs are inactive in a replay (concrete) run, which uses plain numbers.
"""

import datetime as _dt
import math
import sys
from fractions import Fraction

from . import engine
from .engine import SymBool, SymNum, is_plain_number

EPOCH = _dt.datetime(1970, 1, 1)
_real_datetime = _dt.datetime
_real_timedelta = _dt.timedelta
_builtin_float = float


def _secs_of_td(td):
    return Fraction(td.days * 86400 + td.seconds) + Fraction(td.microseconds, 10**6)


def _secs_of_dt(d):
    return _secs_of_td(d.replace(tzinfo=None) - EPOCH)


def is_sym(x):
    return type(x) in (SymNum, SymDatetime, SymTimedelta)


def _unit(freq):
    """Seconds of a frequency string, as pandas reads it."""
    import pandas as pd

    try:
        return _secs_of_td(pd.Timedelta(pd.tseries.frequencies.to_offset(freq)))
    except ValueError:
        return _secs_of_td(pd.Timedelta(freq))


def _to(how, s, freq):
    u = _unit(freq)
    q = s / u if type(s) is SymNum else Fraction(s) / u
    return {"floor": math.floor, "ceil": math.ceil, "round": round}[how](q) * u


class SymTimedelta:
    """Difference of two symbolic datetimes: seconds as a symbolic number."""

    __slots__ = ("s",)

    def __init__(self, s):  # a Fraction on the left of a symbolic number would fail
        self.s = SymNum.lift(s) if type(s) is Fraction else s

    @property
    def __class__(self):
        return _real_timedelta

    @staticmethod
    def of(x):
        if type(x) is SymTimedelta:
            return x.s
        if isinstance(x, _real_timedelta):
            return _secs_of_td(x)
        if type(x).__name__ == "timedelta64":
            import numpy as np

            return Fraction(int(x / np.timedelta64(1, "ns")), 10**9)
        return None

    def total_seconds(self):
        return self.s

    def to_pytimedelta(self):
        return self

    def __add__(self, o):
        s = SymTimedelta.of(o)
        if s is not None:
            return SymTimedelta(self.s + s)
        if isinstance(o, _real_datetime) and type(o) is not SymDatetime:
            return SymDatetime(self.s + _secs_of_dt(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        s = SymTimedelta.of(o)
        return NotImplemented if s is None else SymTimedelta(self.s - s)

    def __rsub__(self, o):
        s = SymTimedelta.of(o)
        if s is not None:
            return SymTimedelta(s - self.s)
        if isinstance(o, _real_datetime) and type(o) is not SymDatetime:
            return SymDatetime(_secs_of_dt(o) - self.s)
        return NotImplemented

    def __neg__(self):
        return SymTimedelta(-self.s)

    def __abs__(self):
        return SymTimedelta(abs(self.s))

    def __mul__(self, n):
        return SymTimedelta(self.s * n)

    __rmul__ = __mul__

    def __truediv__(self, o):
        s = SymTimedelta.of(o)
        if s is not None:
            return self.s / s
        return SymTimedelta(self.s / o)

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self.s != 0)

    def __eq__(self, o):
        s = SymTimedelta.of(o)
        return NotImplemented if s is None else self.s == s

    def __ne__(self, o):
        s = SymTimedelta.of(o)
        return NotImplemented if s is None else self.s != s

    def __lt__(self, o):
        s = SymTimedelta.of(o)
        return NotImplemented if s is None else self.s < s

    def __le__(self, o):
        s = SymTimedelta.of(o)
        return NotImplemented if s is None else self.s <= s

    def __gt__(self, o):
        s = SymTimedelta.of(o)
        return NotImplemented if s is None else self.s > s

    def __ge__(self, o):
        s = SymTimedelta.of(o)
        return NotImplemented if s is None else self.s >= s

    @property
    def days(self):
        return self.s // 86400

    @property
    def seconds(self):
        return (self.s % 86400).__floor__()

    @property
    def microseconds(self):
        return ((self.s % 1) * 10**6).__floor__()

    def floor(self, freq):
        return SymTimedelta(_to("floor", self.s, freq))

    def ceil(self, freq):
        return SymTimedelta(_to("ceil", self.s, freq))

    def round(self, freq):
        return SymTimedelta(_to("round", self.s, freq))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"SymTimedelta({self.s!r})"


def _nat():
    pd = sys.modules.get("pandas")
    return pd.NaT if pd is not None else sys


class SymDatetime:
    """A datetime at a symbolic number of seconds since 1970 (utc)."""

    __slots__ = ("t", "tz")

    def __init__(self, t, tz=None):
        self.t = SymNum.lift(t) if type(t) is Fraction else t
        self.tz = tz

    @staticmethod
    def of(x):
        if type(x) is SymDatetime:
            return x.t
        if isinstance(x, _real_datetime):  # includes pandas Timestamp
            if x != x:
                return None
            return _secs_of_dt(x)
        if type(x).__name__ == "datetime64":
            import numpy as np

            return Fraction(int((x - np.datetime64(0, "ns")) / np.timedelta64(1, "ns")), 10**9)
        return None

    def to_pydatetime(self):
        return self

    def to_datetime64(self):
        return self

    def timestamp(self):
        return self.t

    def replace(self, **kw):
        if set(kw) <= {"tzinfo"}:
            return SymDatetime(self.t, kw.get("tzinfo"))
        raise TypeError("replace() of a symbolic datetime")

    def astimezone(self, tz=None):
        return SymDatetime(self.t, tz)

    @property
    def value(self):
        return self.t * 10**9

    def floor(self, freq, *a, **k):
        return SymDatetime(_to("floor", self.t, freq), self.tz)

    def ceil(self, freq, *a, **k):
        return SymDatetime(_to("ceil", self.t, freq), self.tz)

    def round(self, freq, *a, **k):
        return SymDatetime(_to("round", self.t, freq), self.tz)

    def normalize(self):
        return self.floor("D")

    @property
    def microsecond(self):
        return math.floor((self.t % 1) * 10**6)

    @property
    def second(self):
        return math.floor(self.t % 60)

    @property
    def minute(self):
        return math.floor(self.t % 3600 / 60)

    @property
    def hour(self):
        return math.floor(self.t % 86400 / 3600)

    @property
    def tzinfo(self):
        return self.tz

    def __getattr__(self, n):
        import pandas as pd  # the calendar: at the moment of this run

        if n.startswith("_") or not hasattr(pd.Timestamp, n):
            raise AttributeError(n)

        t = self.t
        if type(t) is SymNum:
            t = engine.ctx().concretise(t, n)
        return getattr(pd.Timestamp(int(Fraction(t) * 10**9)), n)

    def __add__(self, o):
        s = SymTimedelta.of(o)
        return NotImplemented if s is None else SymDatetime(self.t + s, self.tz)

    __radd__ = __add__

    def __sub__(self, o):
        if o is _nat():
            return o
        s = SymTimedelta.of(o)
        if s is not None:
            return SymDatetime(self.t - s, self.tz)
        d = SymDatetime.of(o)
        return NotImplemented if d is None else SymTimedelta(self.t - d)

    def __rsub__(self, o):
        if o is _nat():
            return o
        d = SymDatetime.of(o)
        return NotImplemented if d is None else SymTimedelta(d - self.t)

    def __hash__(self):
        return 0

    def __eq__(self, o):
        d = SymDatetime.of(o)
        return NotImplemented if d is None else self.t == d

    def __ne__(self, o):
        d = SymDatetime.of(o)
        return NotImplemented if d is None else self.t != d

    def __lt__(self, o):
        d = SymDatetime.of(o)
        return NotImplemented if d is None else self.t < d

    def __le__(self, o):
        d = SymDatetime.of(o)
        return NotImplemented if d is None else self.t <= d

    def __gt__(self, o):
        d = SymDatetime.of(o)
        return NotImplemented if d is None else self.t > d

    def __ge__(self, o):
        d = SymDatetime.of(o)
        return NotImplemented if d is None else self.t >= d

    def __int__(self):  # nanoseconds, as numpy's astype("int64") would give
        return int(self.t * 10**9)

    def __deepcopy__(self, memo):
        return self

    def isoformat(self, *a):
        return repr(self)

    def strftime(self, *a):
        return repr(self)

    def __repr__(self):
        return f"SymDatetime({self.t!r})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


# --- the datetime module as seen by the code under test ---------------------


def local_offset():
    """UTC offset of the machine the simulation happens to run on: arbitrary."""
    c = engine.ctx()
    if c is None:
        return 0
    if "tz_offset_h" not in c.used:
        c.tzvar = c.int("tz_offset_h", -11, 12, default=0)
    return c.tzvar * 3600


class _FakeDTMeta(type(_real_datetime)):
    def __instancecheck__(cls, inst):
        return type(inst) is SymDatetime or isinstance(inst, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class FakeDatetime(_real_datetime, metaclass=_FakeDTMeta):
    def __new__(cls, *a, **k):
        return _real_datetime(*a, **k)

    @classmethod
    def utcfromtimestamp(cls, t):
        if engine.ctx() is not None:
            return SymDatetime(t)
        return _real_datetime.utcfromtimestamp(t)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if engine.ctx() is not None:
            if tz is None:
                return SymDatetime(t + local_offset())
            off = tz.utcoffset(None)
            return SymDatetime(t + (_secs_of_td(off) if off is not None else 0), tz)
        return _real_datetime.fromtimestamp(t, tz)

    @classmethod
    def combine(cls, *a, **k):
        return _real_datetime.combine(*a, **k)

    @classmethod
    def now(cls, tz=None):
        return _real_datetime.now(tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime.utcnow()

    @classmethod
    def strptime(cls, *a, **k):
        return _real_datetime.strptime(*a, **k)

    @classmethod
    def fromisoformat(cls, *a, **k):
        return _real_datetime.fromisoformat(*a, **k)


class _FakeTDMeta(type(_real_timedelta)):
    def __instancecheck__(cls, inst):
        return isinstance(inst, _real_timedelta)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_timedelta)


_TD_UNITS = {"days": 86400, "seconds": 1, "microseconds": Fraction(1, 10**6),
             "milliseconds": Fraction(1, 1000), "minutes": 60, "hours": 3600,
             "weeks": 7 * 86400}


class FakeTimedelta(_real_timedelta, metaclass=_FakeTDMeta):
    def __new__(cls, *a, **k):
        kw = dict(zip(["days", "seconds", "microseconds", "milliseconds", "minutes",
                       "hours", "weeks"], a))
        kw.update(k)
        if any(type(v) is SymNum for v in kw.values()):
            s = 0
            for u, v in kw.items():
                s = s + v * _TD_UNITS[u]
            return SymTimedelta(s)
        return _real_timedelta(*a, **k)


class FakeDatetimeModule:
    datetime = FakeDatetime
    timedelta = FakeTimedelta

    def __getattr__(self, n):
        return getattr(_dt, n)


FAKE = FakeDatetimeModule()


def _all_symbolic(x):
    vals = getattr(x, "_values", None)
    if vals is None or getattr(vals, "dtype", None) != object or len(vals) == 0:
        return False
    ok = False
    for v in vals:
        if type(v) is SymNum:
            ok = True
        elif not is_plain_number(v):
            return False
    return ok


_installed = False


def install_pandas():
    """Patch pandas predicates *before* openclsim is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    install_geod()
    import numpy as np
    import pandas as pd
    import pandas.api.types as pat

    real_num = pat.is_numeric_dtype

    def is_numeric_dtype(x):
        if engine.ctx() is not None and _all_symbolic(x):
            return True
        return real_num(x)

    pat.is_numeric_dtype = is_numeric_dtype

    def of_type(x, cls):
        vals = getattr(x, "_values", None)
        return (vals is not None and getattr(vals, "dtype", None) == object and len(vals) > 0
                and any(type(v) is cls for v in vals))

    real_td = pat.is_timedelta64_dtype

    def is_timedelta64_dtype(x):
        if engine.ctx() is not None and of_type(x, SymTimedelta):
            return True
        return real_td(x)

    pat.is_timedelta64_dtype = is_timedelta64_dtype

    real_dtm = pat.is_datetime64_any_dtype

    def is_datetime64_any_dtype(x):
        if engine.ctx() is not None and of_type(x, SymDatetime):
            return True
        return real_dtm(x)

    pat.is_datetime64_any_dtype = is_datetime64_any_dtype

    # Series.astype("int64") of symbolic datetimes: nanoseconds, kept symbolic
    real_astype = pd.Series.astype

    def astype(self, dtype, *a, **k):
        dtype = _builtin_float if dtype is FakeFloat else dtype
        if engine.ctx() is not None and self.dtype == object:
            name = getattr(dtype, "name", None) or getattr(dtype, "__name__", None) or str(dtype)
            if of_type(self, SymDatetime):
                if "int" in name:
                    return self.map(lambda d: SymDatetime.of(d) * 10**9)
                if "datetime" in name:
                    return self
            if _all_symbolic(self) and ("float" in name):
                return self
            if of_type(self, SymTimedelta) and "timedelta" in name:
                return self
        return real_astype(self, dtype, *a, **k)

    pd.Series.astype = astype

    # differences of symbolic datetimes, some of which may be missing
    real_sub = pd.Series.__sub__

    def sub(self, other):
        if (engine.ctx() is not None and isinstance(other, pd.Series)
                and len(self) == len(other) and self.index.equals(other.index)
                and (of_type(self, SymDatetime) or of_type(other, SymDatetime))):
            def gone(x):
                return x is None or x is pd.NaT or (type(x) is float and x != x)
            vals = [pd.NaT if gone(a) or gone(b) else a - b for a, b in zip(self, other)]
            return pd.Series(vals, index=self.index, dtype=object)
        return real_sub(self, other)

    pd.Series.__sub__ = sub

    # Series.round on symbolic object columns
    real_round = pd.Series.round

    def s_round(self, decimals=0, *a, **k):
        if engine.ctx() is not None and _all_symbolic(self):
            return self.map(lambda v: round(v, decimals))
        return real_round(self, decimals, *a, **k)

    pd.Series.round = s_round

    real_to_dt = pd.to_datetime

    def to_datetime(arg, *a, **k):
        if engine.ctx() is not None:
            if type(arg) is SymNum:
                unit = k.get("unit", "ns")
                return SymDatetime(arg * {"s": 1, "ms": Fraction(1, 10**3),
                                          "us": Fraction(1, 10**6),
                                          "ns": Fraction(1, 10**9)}[unit])
            if type(arg) is SymDatetime:
                return arg
            if of_type(arg, SymDatetime):
                return arg
            if isinstance(arg, (list, tuple)) and any(is_sym(x) for x in arg):
                return pd.Series(list(arg), dtype=object)
        return real_to_dt(arg, *a, **k)

    pd.to_datetime = to_datetime

    # .dt accessor on object columns of symbolic datetimes / timedeltas
    from pandas.core.indexes.accessors import CombinedDatetimelikeProperties as CDP

    real_new = CDP.__new__

    class SymDt:
        def __init__(self, s):
            self._s = s

        def total_seconds(self):
            def secs(d):
                s = SymTimedelta.of(d)
                return float("nan") if s is None else s
            return self._s.map(secs)

        def to_pydatetime(self):
            return np.array(list(self._s), dtype=object)

        def to_pytimedelta(self):
            return np.array(list(self._s), dtype=object)

        def __getattr__(self, n):
            if any(callable(getattr(d, n, None)) for d in self._s if is_sym(d)):
                return lambda *a, **k: self._s.map(
                    lambda d: d if d is pd.NaT else getattr(d if is_sym(d) else pd.Timestamp(d), n)(*a, **k))
            return self._s.map(lambda d: getattr(d, n))

    def times(x):
        vals = getattr(x, "_values", None)
        return (vals is not None and getattr(vals, "dtype", None) == object
                and all(v is pd.NaT or type(v) in (SymTimedelta, SymDatetime)
                        or isinstance(v, (_real_datetime, _real_timedelta)) for v in vals))

    def new(cls, data, *a, **k):
        if engine.ctx() is not None and (of_type(data, SymTimedelta) or of_type(data, SymDatetime)
                                         or times(data)):
            return SymDt(data)
        return real_new(cls, data, *a, **k)

    CDP.__new__ = new


# --- places on a line along the equator, at symbolic distances

_PLACES = {}  # longitude -> metres (symbolic)
_EQUATOR = 6378137.0 * math.pi / 180  # metres per degree of longitude, WGS84


def place(c, key, metres):
    """A point at a (symbolic) number of metres along the equator."""
    import shapely.geometry

    if not c.symbolic:
        return shapely.geometry.Point(float(metres) / _EQUATOR, 0)
    lon = 1 + key / 64
    _PLACES[lon] = metres
    return shapely.geometry.Point(lon, 0)


def install_geod():
    """Distances between such places; everything else is left to pyproj."""
    import pyproj

    real_inv, real_len = pyproj.Geod.inv, pyproj.Geod.geometry_length

    def inv(self, lons1, lats1, lons2, lats2, *a, **k):
        if engine.ctx() is not None and _PLACES:
            try:
                x, y = _PLACES.get(lons1), _PLACES.get(lons2)
            except TypeError:
                x = y = None
            if x is not None and y is not None:
                return 90.0, -90.0, abs(x - y)
        return real_inv(self, lons1, lats1, lons2, lats2, *a, **k)

    def geometry_length(self, geometry, *a, **k):
        if engine.ctx() is not None and _PLACES and geometry.geom_type == "LineString":
            xs = [_PLACES.get(p[0]) for p in geometry.coords]
            if all(x is not None for x in xs):
                r = 0
                for p, q in zip(xs, xs[1:]):
                    r = r + abs(p - q)
                return r
        return real_len(self, geometry, *a, **k)

    pyproj.Geod.inv, pyproj.Geod.geometry_length = inv, geometry_length


class _FakeFloatMeta(type):
    def __instancecheck__(cls, inst):
        return isinstance(inst, _builtin_float)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _builtin_float)

    def __getattr__(cls, n):
        return getattr(_builtin_float, n)


class FakeFloat(_builtin_float, metaclass=_FakeFloatMeta):
    """float() of a symbolic number is that number."""

    def __new__(cls, x=0.0):
        return x if type(x) is SymNum else _builtin_float(x)


FakeFloat.__name__ = "float"


def install_modules():
    """Replace `datetime` and `float` in the name spaces of the loaded openclsim modules."""
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "openclsim" or name.startswith("openclsim.")):
            continue
        if "float" not in vars(mod):
            mod.float = FakeFloat
        for attr, val in list(vars(mod).items()):
            if val is _dt:
                setattr(mod, attr, FAKE)
            elif val is _real_datetime:
                setattr(mod, attr, FakeDatetime)
            elif val is _real_timedelta:
                setattr(mod, attr, FakeTimedelta)


def seconds(ts):
    """Seconds since 1970 (utc) of a logged timestamp, symbolic or real."""
    if type(ts) is SymDatetime:
        return ts.t
    if type(ts) is SymNum or is_plain_number(ts):
        return ts
    from fractions import Fraction as F

    v = SymDatetime.of(ts)
    if v is None:
        return None
    v = F(v)
    return v.numerator if v.denominator == 1 else float(v)
