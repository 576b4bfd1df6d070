"""Rational and decimal values with symbolic numerators / coefficients: models of
fractions.Fraction (normalisation, comparison, limit_denominator) and of the correctly
rounded decimal.Context operations.  Denominators and exponents are concrete (one path each)."""

import decimal
import math
import types
from decimal import Decimal
from fractions import Fraction

from . import values as V
from .values import And, Not, Or, is_sym


def conc(x):
    """one path per value"""
    return x.concrete() if is_sym(x) else x


def primes(d):
    r, p = [], 2
    while p * p <= d:
        if d % p == 0:
            r.append(p)
            while d % p == 0:
                d //= p
        p += 1
        if p > 10**5:
            V.E().cut("large denominator")
    return r + [d] if d > 1 else r


def _frac(x):
    """the rational value of a concrete or modelled number as (numerator, concrete denominator)"""
    if isinstance(x, SymFraction):
        return x.n, x.d
    if type(x) is SymDecimal:
        return (x.c * 10**x.e, 1) if x.e >= 0 else (x.c, 10**-x.e)
    if isinstance(x, V.SymInt):
        return x, 1
    if isinstance(x, Decimal) and not x.is_finite():
        return None
    if isinstance(x, (int, float, Fraction, Decimal)):
        if isinstance(x, float) and not math.isfinite(x):
            return None
        f = Fraction(x)
        return f.numerator, f.denominator
    return None


class _Num(V.Sym):
    __slots__ = ()
    real = None

    @property
    def __class__(self):
        return self.real

    def _cmp(self, o, f):
        if isinstance(o, Decimal) and type(o) is not SymDecimal and o.is_infinite():
            return f(0, 1 if o > 0 else -1)
        if isinstance(o, float) and math.isinf(o):
            return f(0, 1 if o > 0 else -1)
        q = _frac(o)
        if q is None:
            return NotImplemented
        n, d = _frac(self)
        return f(n * q[1], q[0] * d)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return Not(self == o)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise TypeError("unhashable: symbolic value")

    def __repr__(self):
        return f"<sym {self.real.__name__}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


class SymFraction(_Num):
    __slots__ = ("n", "d")
    real = Fraction

    def __init__(self, n, d):
        self.n, self.d = n, d

    @classmethod
    def make(cls, numerator=0, denominator=None):
        if denominator is None:
            q = _frac(numerator)
            if q is None:
                V.E().cut("fraction of another kind of symbolic value")
            n, d = q
        else:
            a, b = _frac(numerator), _frac(denominator)
            n, d = a[0] * b[1], a[1] * b[0]
        d = conc(d)
        if d == 0:
            raise ZeroDivisionError(f"Fraction({numerator!r}, 0)")
        if d < 0:
            n, d = -n, -d
        if not is_sym(n):
            return Fraction(n, d)
        for p in primes(d):
            while d % p == 0 and n % p == 0:
                n, d = n // p, d // p
        return cls(n, d)

    @property
    def numerator(self):
        return self.n

    @property
    def denominator(self):
        return self.d

    def limit_denominator(self, max_denominator=1000000):
        if max_denominator < 1:
            raise ValueError("max_denominator should be at least 1")
        if self.d <= max_denominator:
            return self
        # the algorithm commutes with adding an integer
        base, r = self.n // self.d, conc(self.n % self.d)
        f = Fraction(r, self.d).limit_denominator(max_denominator)
        return SymFraction(base * f.denominator + f.numerator, f.denominator)

    def __neg__(self):
        return SymFraction(-self.n, self.d)

    def _arith(self, o, f):
        q = _frac(o)
        if q is None:
            return NotImplemented
        return SymFraction.make(*f(self.n, self.d, *q))

    def __add__(self, o):
        return self._arith(o, lambda a, b, c, d: (a * d + c * b, b * d))

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b, c, d: (a * d - c * b, b * d))

    def __rsub__(self, o):
        return self._arith(o, lambda a, b, c, d: (c * b - a * d, b * d))

    def __mul__(self, o):
        return self._arith(o, lambda a, b, c, d: (a * c, b * d))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._arith(o, lambda a, b, c, d: (a * d, b * c))

    def __rtruediv__(self, o):
        return self._arith(o, lambda a, b, c, d: (c * b, d * a))

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __trunc__(self):
        return self.__floor__() if self >= 0 else self.__ceil__()

    __int__ = __trunc__

    def concrete(self):
        return Fraction(self.n.concrete() if is_sym(self.n) else self.n, self.d)


def _div_round(a, b):
    """a / b to the nearest integer, ties to even (b > 0 concrete)"""
    q, r = a // b, a % b
    up = Or(2 * r > b, And(2 * r == b, q % 2 == 1))
    return q + V.ite(up, 1, 0)


class SymDecimal(_Num):
    """coefficient (symbolic) * 10 ** exponent (concrete)"""

    __slots__ = ("c", "e")
    real = Decimal

    def __init__(self, c, e):
        self.c, self.e = c, e

    @classmethod
    def make(cls, value="0", context=None):
        if isinstance(value, V.SymInt):
            return cls(value, 0)
        if type(value) is cls:
            return value
        V.E().cut("decimal of another kind of symbolic value")

    @staticmethod
    def lift(x):
        if type(x) is SymDecimal:
            return x
        if isinstance(x, (int, V.SymInt)):
            return SymDecimal(x, 0)
        if isinstance(x, Decimal) and x.is_finite():
            s, ds, e = x.as_tuple()
            n = int("".join(map(str, ds)))
            return SymDecimal(-n if s else n, e)
        return None

    def as_tuple(self):
        return types.SimpleNamespace(exponent=self.e)

    def is_nan(self):
        return False

    is_infinite = is_snan = is_qnan = is_nan

    def is_finite(self):
        return True

    def __neg__(self):
        return SymDecimal(-self.c, self.e)

    def __abs__(self):
        return SymDecimal(V.abs_(self.c), self.e)

    def __trunc__(self):
        n, d = _frac(self)
        return n // d if n >= 0 else -((-n) // d)

    __int__ = __trunc__

    def concrete(self):
        return Decimal(self.c.concrete() if is_sym(self.c) else self.c).scaleb(self.e)


def _ndigits(c):
    """number of digits of |c|, one path each"""
    c = V.abs_(c)
    lo = _hull(c)[0]
    k0 = max(1, len(str(lo))) if lo is not None and lo > 0 else 1
    return _first(lambda k: c < 10**k, k0, 60)


def _to_prec(c, e, prec):
    k = _ndigits(c)
    if k <= prec:
        return SymDecimal(c, e)
    s = k - prec
    m = V.ite(c < 0, -1, 1)
    return SymDecimal(m * _div_round(V.abs_(c), 10**s), e + s)


def _even_only(ctx):
    if ctx.rounding != decimal.ROUND_HALF_EVEN:
        V.E().cut("another rounding mode")


def c_multiply(ctx, a, b):
    _even_only(ctx)
    a, b = SymDecimal.lift(a), SymDecimal.lift(b)
    return _to_prec(a.c * b.c, a.e + b.e, ctx.prec)


def c_divide(ctx, a, b):
    _even_only(ctx)
    a, b = SymDecimal.lift(a), SymDecimal.lift(b)
    d = conc(b.c)
    if d == 0:
        raise decimal.DivisionByZero()
    n, e0 = a.c, a.e - b.e
    neg = n < 0 if d > 0 else n > 0
    n, d = V.abs_(n), abs(d)
    if n == 0:
        return SymDecimal(0, min(0, e0))
    sign = V.ite(neg, -1, 1)
    # exact quotients of few digits keep the exponent nearest to the ideal one; the value
    # is all that is used afterwards
    p = ctx.prec
    k = _ndigits(n)  # 10**(k-1) <= n < 10**k
    # find e with 10**(p-1) <= n / d * 10**-e < 10**p
    def fits(n, e):
        lhs, rhs = (n * 10**-e, d * 10**p) if e <= 0 else (n, d * 10 ** (p + e))
        return lhs < rhs

    e0_ = k - len(str(d)) - p - 1
    lo = _hull(n)[0]
    if lo is not None and lo > 0:
        e0_ = _skip(lambda e: fits(lo, e), e0_, e0_ + 5)
    e = _first(lambda e: fits(n, e), e0_, e0_ + 10)
    q = _div_round(n * 10**-e, d) if e <= 0 else _div_round(n, d * 10**e)
    return SymDecimal(sign * q, e + e0)


def c_quantize(ctx, a, b):
    _even_only(ctx)
    a = SymDecimal.lift(a)
    e = SymDecimal.lift(b).e
    if a.e >= e:
        c = a.c * 10 ** (a.e - e)
    else:
        m = V.ite(a.c < 0, -1, 1)
        c = m * _div_round(V.abs_(a.c), 10 ** (e - a.e))
    if not (V.abs_(c) < 10**ctx.prec):
        raise decimal.InvalidOperation("quantize result has too many digits")
    return SymDecimal(c, e)


CTX = {"multiply": c_multiply, "divide": c_divide, "quantize": c_quantize}


def ctx_method(ctx, name, f):
    def g(*a, **k):
        if any(map(is_sym, a)) and not k:
            return CTX[name](ctx, *a)
        return f(*a, **k)

    return g


def _hull(x):
    return (x.lo, x.hi) if isinstance(x, V.SymInt) else (x, x)


def _first(f, k0, top):
    """the least k >= k0 with f(k) (monotone), one path per k"""
    k = k0
    while not f(k):
        k += 1
        if k > top:
            V.E().cut("number out of the modelled range")
    return k


def _skip(f, k0, top):
    """the least k >= k0 with f(k) for a monotone f over concrete numbers"""
    while k0 < top and not f(k0):
        k0 += 1
    return k0


class LogVal(V.Sym):
    """log10 of a positive symbolic rational: supports what rounding up needs"""

    __slots__ = ("n", "d")

    def __init__(self, n, d=1):
        self.n, self.d = n, d

    def __add__(self, o):
        if isinstance(o, LogVal):
            return LogVal(self.n * o.n, self.d * o.d)
        if o == 0:
            return self
        if isinstance(o, float) and 0 <= o < 14 and abs(10**o - round(10**o)) < 1e-12 * 10**o:
            return LogVal(self.n * round(10**o), self.d)
        V.E().cut("arithmetic on logarithms")

    __radd__ = __add__

    def _least(self, f):
        lo = _hull(self.n)[0]
        k0 = -12 if lo is None or lo <= 0 or is_sym(self.d) else _skip(lambda k: f(lo, self.d, k), -12, 60)
        return _first(lambda k: f(self.n, self.d, k), k0, 60)

    def __ceil__(self):
        # (a sum of two rounded logarithms may land just above an exact integer)
        return self._least(lambda n, d, k: n * 10**12 <= d * 10 ** (k + 12))

    def __floor__(self):
        return self._least(lambda n, d, k: n * 10**12 < d * 10 ** (k + 13))

    def __trunc__(self):
        return self.__floor__() if self > 0 else self.__ceil__()

    __int__ = __trunc__

    def _cmp(self, o, f):
        if not isinstance(o, int) or abs(o) > 100:
            V.E().cut("comparison of a logarithm")
        return f(self.n * 10 ** max(0, -o), self.d * 10 ** max(0, o))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None


def m_log10(x):
    if is_sym(x):
        q = _frac(x)
        if q is None:
            V.E().cut("log10 of a symbolic float")
        if not (q[0] > 0):
            raise ValueError("math domain error")
        return LogVal(*q)
    return math.log10(x)


class SymComplex(V.Sym):
    __slots__ = ("real", "imag")

    def __init__(self, real, imag):
        self.real, self.imag = real, imag

    @property
    def __class__(self):
        return complex

    @classmethod
    def make(cls, real=0.0, imag=0.0):
        return cls(real, imag)

    def __hash__(self):
        raise TypeError("unhashable: symbolic value")

    def __repr__(self):
        return "<sym complex>"

    __str__ = __repr__

    def concrete(self):
        return complex(*[x.concrete() if is_sym(x) else x for x in (self.real, self.imag)])
