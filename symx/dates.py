"""Calendar values with symbolic components: models of datetime.date, time, datetime and
timedelta (construction with range checks, attributes, comparison, whole-day shifts)."""

import calendar
import datetime as dt

from . import values as V
from .values import And, Not, Or, is_sym


def ite(c, a, b):
    return V.ite(c, a, b)


def leap(y):
    return And(y % 4 == 0, Or(Not(y % 100 == 0), y % 400 == 0))


def dim(y, m):
    if not is_sym(y) and not is_sym(m):
        return calendar.monthrange(y, m)[1]
    d = ite(Or(m == 4, m == 6, m == 9, m == 11), 30, 31)
    return ite(m == 2, ite(leap(y), 29, 28), d)


def ordinal(y, m, d):
    """proleptic Gregorian ordinal"""
    p = y - 1
    n = p * 365 + p // 4 - p // 100 + p // 400
    acc = 0
    before = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
    for k in range(12):
        acc = ite(m == k + 1, before[k], acc)
    return n + acc + ite(And(m > 2, leap(y)), 1, 0) + d


class _Cal(V.Sym):
    __slots__ = ()
    FIELDS = ()
    real = None

    @property
    def __class__(self):
        return self.real

    def fields(self):
        return tuple(getattr(self, f) for f in self.FIELDS)

    def key(self):
        k = 0
        for f in self.FIELDS:
            k = k * self.SCALE[f] + getattr(self, f)
        return k

    SCALE = dict(year=1, month=16, day=32, hour=32, minute=64, second=64, microsecond=1 << 20,
                 days=1, seconds=1 << 17, microseconds=1 << 20)

    @classmethod
    def of(cls, x):
        if isinstance(x, cls) or type(x) is cls:
            return x
        if type(x) is cls.real:
            return cls.lift(x)
        return None

    @classmethod
    def lift(cls, x):
        return cls(*[getattr(x, f) for f in cls.FIELDS])

    def _cmp(self, o, f):
        o = type(self).of(o)
        if o is None:
            return NotImplemented
        return f(self.key(), o.key())

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        o = type(self).of(o)
        if o is None:
            return False
        return And(*[a == b for a, b in zip(self.fields(), o.fields())])

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        raise TypeError("unhashable: symbolic value")

    def __repr__(self):
        return f"<sym {self.real.__name__}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def concrete(self):
        return self.real(*[x.concrete() if is_sym(x) else x for x in self.fields()])


def _check(c, msg):
    if not c:
        raise ValueError(msg)


class SymDate(_Cal):
    __slots__ = ("year", "month", "day")
    FIELDS = ("year", "month", "day")
    real = dt.date

    def __init__(self, year, month, day):
        self.year, self.month, self.day = year, month, day

    @classmethod
    def make(cls, year, month, day):
        _check(And(year >= 1, year <= 9999), "year is out of range")
        _check(And(month >= 1, month <= 12), "month must be in 1..12")
        _check(And(day >= 1, day <= dim(year, month)), "day is out of range for month")
        return cls(year, month, day)

    def toordinal(self):
        return ordinal(self.year, self.month, self.day)

    def weekday(self):
        return (self.toordinal() + 6) % 7

    def __add__(self, td):
        if not isinstance(td, dt.timedelta):
            return NotImplemented
        n = td.days
        if is_sym(n):
            V.E().cut("date plus a symbolic duration")
        y, m, d = self.year, self.month, self.day
        if abs(n) > 3:
            V.E().cut("date plus several days")
        while n > 0:
            n -= 1
            if d < dim(y, m):
                d = d + 1
            elif m < 12:
                m, d = m + 1, 1
            else:
                y, m, d = y + 1, 1, 1
        while n < 0:
            n += 1
            if d > 1:
                d = d - 1
            elif m > 1:
                m = m - 1
                d = dim(y, m)
            else:
                y, m, d = y - 1, 12, 31
        if Not(And(y >= 1, y <= 9999)):
            raise OverflowError("date value out of range")
        return SymDate(y, m, d)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, dt.timedelta):
            return self + (-o)
        o = SymDate.of(o)
        if o is None:
            return NotImplemented
        return SymTimedelta.make(self.toordinal() - o.toordinal(), 0, 0)


class SymTime(_Cal):
    __slots__ = ("hour", "minute", "second", "microsecond", "tzinfo", "fold")
    FIELDS = ("hour", "minute", "second", "microsecond")
    real = dt.time

    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond
        self.tzinfo, self.fold = tzinfo, fold

    @classmethod
    def lift(cls, x):
        return cls(*[getattr(x, f) for f in cls.FIELDS], x.tzinfo, fold=x.fold)

    @classmethod
    def make(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        _check(And(hour >= 0, hour <= 23), "hour must be in 0..23")
        _check(And(minute >= 0, minute <= 59), "minute must be in 0..59")
        _check(And(second >= 0, second <= 59), "second must be in 0..59")
        _check(And(microsecond >= 0, microsecond <= 999999), "microsecond must be in 0..999999")
        _check(And(fold >= 0, fold <= 1), "fold must be either 0 or 1")
        return cls(hour, minute, second, microsecond, tzinfo, fold=fold)

    def replace(self, **kw):
        d = {f: getattr(self, f) for f in (*self.FIELDS, "tzinfo", "fold")}
        d.update(kw)
        return type(self).make(**d)


class SymDatetime(_Cal):
    __slots__ = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo", "fold")
    FIELDS = ("year", "month", "day", "hour", "minute", "second", "microsecond")
    real = dt.datetime

    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond
        self.tzinfo, self.fold = tzinfo, fold

    lift = classmethod(SymTime.lift.__func__)

    @classmethod
    def make(cls, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        SymDate.make(year, month, day)
        SymTime.make(hour, minute, second, microsecond, fold=fold)
        return cls(year, month, day, hour, minute, second, microsecond, tzinfo, fold=fold)

    replace = SymTime.replace

    def date(self):
        return SymDate(self.year, self.month, self.day)

    def time(self):
        return SymTime(self.hour, self.minute, self.second, self.microsecond, fold=self.fold)

    def key(self):
        return self.date().key() * (1 << 42) + self.time().key()


class SymTimedelta(_Cal):
    __slots__ = ("days", "seconds", "microseconds")
    FIELDS = ("days", "seconds", "microseconds")
    real = dt.timedelta

    def __init__(self, days, seconds, microseconds):
        self.days, self.seconds, self.microseconds = days, seconds, microseconds

    @classmethod
    def make(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        us = microseconds + milliseconds * 1000
        s = seconds + minutes * 60 + hours * 3600
        d = days + weeks * 7
        if Not(And(us >= 0, us < 1000000)):
            s = s + us // 1000000
            us = us % 1000000
        if Not(And(s >= 0, s < 86400)):
            d = d + s // 86400
            s = s % 86400
        if Not(And(d >= -999999999, d <= 999999999)):
            raise OverflowError("days; must have magnitude <= 999999999")
        return cls(d, s, us)

    def __bool__(self):
        return bool(Or(*[Not(f == 0) for f in self.fields()]))


def monthrange(year, month):
    _check(And(month >= 1, month <= 12), "bad month number")
    return (SymDate(year, month, 1).weekday(), dim(year, month))


def ctor(real, cls):
    def make(*a, **k):
        if any(map(is_sym, a)) or any(map(is_sym, k.values())):
            return cls.make(*a, **k)
        return real(*a, **k)

    return make
