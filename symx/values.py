"""Symbolic stand-ins for Python's bool, int, float, str and bytes.

Integers are either mathematical (z3 Int, unbounded) or adaptive-width signed
bit-vectors that carry an interval [lo, hi] and are widened before every
operation so that nothing ever wraps: both give Python's exact semantics.
Floats are IEEE doubles held as their 64 bits.  Strings and bytes have a
concrete length and symbolic elements.
"""

import math
import struct

import z3

from . import core
from .core import Cut

F64 = z3.Float64()
RNE = z3.RNE()


def E():
    return core.ENGINE


class Sym:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise TypeError("symbolic values are not picklable")


def is_sym(x):
    return isinstance(x, Sym)


# --------------------------------------------------------------------------
# bool


class SymBool(Sym):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E().branch(self.b)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<symbool>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbool>"

    def to_int(self):
        return SymInt.bv(z3.If(self.b, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.b == o.b)
        if type(o) is bool:
            return SymBool(self.b if o else z3.Not(self.b))
        if isinstance(o, (int, float)) or is_sym(o):
            return self.to_int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.b, o.b))
        if type(o) is bool:
            return self if o else False
        return self.to_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.b, o.b))
        if type(o) is bool:
            return True if o else self
        return self.to_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Xor(self.b, o.b))
        if type(o) is bool:
            return SymBool(z3.Not(self.b)) if o else self
        return self.to_int() ^ o

    __rxor__ = __xor__

    def __getattr__(self, name):
        if name in _INT_METHODS or name in ("real", "imag", "numerator", "denominator"):
            return getattr(self.to_int(), name)
        raise AttributeError(name)


def _lift_bool_to_int(name):
    def f(self, *a):
        return getattr(self.to_int(), name)(*a)

    f.__name__ = name
    return f


for _n in (
    "lt le gt ge add radd sub rsub mul rmul floordiv rfloordiv mod rmod neg pos abs "
    "invert lshift rlshift rshift rrshift pow rpow truediv rtruediv divmod"
).split():
    setattr(SymBool, f"__{_n}__", _lift_bool_to_int(f"__{_n}__"))


def to_z3bool(x):
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_bool(x):
        return x
    return z3.BoolVal(bool(x))


def mk_bool(b):
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SymBool(b)


def Not(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.b))
    return not x


def And(*xs):
    zs = []
    for x in xs:
        if isinstance(x, SymBool):
            zs.append(x.b)
        elif not x:
            return False
    return SymBool(z3.And(*zs)) if zs else True


def Or(*xs):
    zs = []
    for x in xs:
        if isinstance(x, SymBool):
            zs.append(x.b)
        elif x:
            return True
    return SymBool(z3.Or(*zs)) if zs else False


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) == bool(b)
    return SymBool(to_z3bool(a) == to_z3bool(b))


# --------------------------------------------------------------------------
# int


def _bits_for(lo, hi):
    """Width of the narrowest signed bit-vector holding [lo, hi]."""
    n = 1
    if hi > 0:
        n = max(n, hi.bit_length() + 1)
    if lo < 0:
        n = max(n, (-lo - 1).bit_length() + 1)
    return n


class SymInt(Sym):
    """t is a z3 Int (lo/hi may be None) or a signed bit-vector (lo/hi ints)."""

    __slots__ = ("t", "lo", "hi", "isbv", "src")

    def __init__(self, t, lo, hi, isbv):
        self.src = None  # the SymFloat this is the truncation of
        self.t = t
        self.lo = lo
        self.hi = hi
        self.isbv = isbv

    @classmethod
    def int_(cls, t, lo=None, hi=None):
        return cls(t, lo, hi, False)

    @classmethod
    def bv(cls, t, lo, hi):
        w = _bits_for(lo, hi)
        s = t.size()
        if s > w:
            t = z3.Extract(w - 1, 0, t)
        elif s < w:
            t = z3.SignExt(w - s, t)
        return cls(t, lo, hi, True)

    @classmethod
    def from_unsigned(cls, t, lo=0, hi=None):
        n = t.size()
        if hi is None:
            hi = (1 << n) - 1
        return cls.bv(z3.ZeroExt(1, t), lo, hi)

    @property
    def __class__(self):
        return int

    # --- conversions
    def at(self, w):
        s = self.t.size()
        return self.t if s == w else z3.SignExt(w - s, self.t)

    def as_int_term(self):
        if self.isbv:
            return z3.BV2Int(self.t, is_signed=True)
        return self.t

    def concrete(self):
        if self.lo is not None and self.lo == self.hi:
            return self.lo
        v = E().concretize(self.t)
        return v.as_signed_long() if self.isbv else v.as_long()

    def __index__(self):
        return self.concrete()

    __int__ = __index__

    def __hash__(self):
        if E().opts.get("unhashable"):
            raise TypeError("unhashable: symbolic value")
        return hash(self.concrete())

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        return float(self.concrete())

    def __repr__(self):
        return "<symint>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symint>"

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    numerator = real

    @property
    def imag(self):
        return 0

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (self, 1)

    def bit_length(self):
        if self.src is not None:
            e = z3.ZeroExt(5, z3.Extract(62, 52, self.src.bits))
            return mk_bvint(z3.simplify(z3.If(z3.ULT(e, 1023), z3.BitVecVal(0, 16), e - 1022)), 0, 1024)
        n = abs_(self)
        k = 0
        if isinstance(n, int) and not is_sym(n):
            return n.bit_length()
        if n.isbv:
            w = n.t.size()
            r = z3.BitVecVal(0, 16)
            for i in range(w - 1):
                r = z3.If(z3.Extract(i, i, n.t) == 1, z3.BitVecVal(i + 1, 16), r)
            return mk_bvint(r, 0, w - 1)
        while True:
            if n < (1 << k):
                return k
            k += 1
            if k > 4096:
                raise Cut("bit_length over 4096")

    def bit_count(self):
        n = abs_(self)
        r = 0
        assert n.isbv
        for i in range(n.t.size() - 1):
            r = r + SymInt.from_unsigned(z3.Extract(i, i, n.t))
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if is_sym(length):
            length = length.concrete()
        lo, hi = (0, (1 << (8 * length)) - 1)
        if signed:
            lo, hi = (-(1 << (8 * length - 1)) if length else 0, ((1 << (8 * length - 1)) - 1) if length else 0)
        if not signed:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
        if Or(self < lo, self > hi):
            raise OverflowError("int too big to convert")
        out = []
        if self.isbv:
            t = self.at(max(self.t.size(), 8 * length + 1))
            for i in range(length):
                out.append(mk_byte(z3.Extract(8 * i + 7, 8 * i, t)))
        else:
            for i in range(length):
                out.append(mk_int(z3.simplify((self.t / (1 << (8 * i))) % 256), 0, 255))
        if byteorder == "big":
            out.reverse()
        return mk_bytes(out)

    # --- comparison
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o.to_int()
        if isinstance(o, SymInt):
            if self.isbv and o.isbv:
                w = max(self.t.size(), o.t.size())
                a, b = self.at(w), o.at(w)
            else:
                a, b = self.as_int_term(), o.as_int_term()
            olo, ohi = o.lo, o.hi
        elif isinstance(o, int):
            o = int(o)
            olo = ohi = o
            if self.isbv:
                if not (self.lo <= o <= self.hi):
                    lt = o > self.hi
                    return {"eq": False, "ne": True, "lt": lt, "le": lt, "gt": not lt, "ge": not lt}[op]
                a, b = self.t, z3.BitVecVal(o, self.t.size())
            else:
                a, b = self.t, z3.IntVal(o)
        elif isinstance(o, SymFloat):
            return int_float_cmp(self, o, op)
        elif isinstance(o, float):
            if math.isnan(o):
                return op == "ne"
            if math.isinf(o):
                lt = o > 0
                return {"eq": False, "ne": True, "lt": lt, "le": lt, "gt": not lt, "ge": not lt}[op]
            if o == math.floor(o):
                return self._cmp(int(o), op)
            fl = math.floor(o)
            if op == "eq":
                return False
            if op == "ne":
                return True
            if op in ("lt", "le"):
                return self._cmp(fl, "le")
            return self._cmp(fl, "gt")
        elif isinstance(o, SymFraction):
            return NotImplemented
        else:
            return NotImplemented
        # decide by intervals when possible
        lo, hi = self.lo, self.hi
        if lo is not None and ohi is not None:
            if lo > ohi:
                return op in ("ne", "gt", "ge")
            if lo == ohi and op == "ge":
                return True
            if lo == ohi and op == "lt":
                return False
        if hi is not None and olo is not None:
            if hi < olo:
                return op in ("ne", "lt", "le")
            if hi == olo and op == "le":
                return True
            if hi == olo and op == "gt":
                return False
        if op == "eq":
            return SymBool(a == b)
        if op == "ne":
            return SymBool(a != b)
        if op == "lt":
            return SymBool(a < b)
        if op == "le":
            return SymBool(a <= b)
        if op == "gt":
            return SymBool(a > b)
        return SymBool(a >= b)

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    # --- arithmetic
    def _pair(self, o):
        """(a, b) as SymInts of the same representation, or None."""
        if isinstance(o, SymBool):
            o = o.to_int()
        if isinstance(o, SymInt):
            if self.isbv == o.isbv:
                return self, o
            return (
                SymInt.int_(self.as_int_term(), self.lo, self.hi),
                SymInt.int_(o.as_int_term(), o.lo, o.hi),
            )
        if isinstance(o, int):
            o = int(o)
            return self, const_int(o, self.isbv)
        return None

    def _fl(self, o, op, swap=False):
        a = int_to_symfloat_rounded(self)
        r = getattr(a, op)(o)
        return r

    def __add__(self, o):
        if isinstance(o, (float, SymFloat)):
            return int_to_symfloat_rounded(self) + o
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _iadd(*p)

    def __radd__(self, o):
        if isinstance(o, (float, SymFloat)):
            return o + int_to_symfloat_rounded(self)
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, (float, SymFloat)):
            return int_to_symfloat_rounded(self) - o
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _isub(*p)

    def __rsub__(self, o):
        if isinstance(o, (float, SymFloat)):
            return o - int_to_symfloat_rounded(self)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _isub(p[1], p[0])

    def __mul__(self, o):
        if isinstance(o, (float, SymFloat)):
            return int_to_symfloat_rounded(self) * o
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.concrete()
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _imul(*p)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __floordiv__(self, o):
        if isinstance(o, (float, SymFloat)):
            return NotImplemented
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _idivmod(*p)[0]

    def __rfloordiv__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _idivmod(p[1], p[0])[0]

    def __mod__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _idivmod(*p)[1]

    def __rmod__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _idivmod(p[1], p[0])[1]

    def __divmod__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _idivmod(*p)

    def __rdivmod__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _idivmod(p[1], p[0])

    def __truediv__(self, o):
        if isinstance(o, (int, SymInt)):
            o = int_to_symfloat_rounded(o) if is_sym(o) else o
            return int_to_symfloat_rounded(self) / o
        return int_to_symfloat_rounded(self) / o

    def __rtruediv__(self, o):
        return to_symfloat(o) / int_to_symfloat_rounded(self)

    def __neg__(self):
        return _isub(const_int(0, self.isbv), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def __invert__(self):
        if self.isbv:
            return mk_bvint(~self.t, ~self.hi, ~self.lo)
        return -self - 1

    def __pow__(self, o, mod=None):
        if is_sym(o):
            o = o.concrete()
        if mod is not None:
            raise Cut("pow with modulus")
        if o < 0:
            return int_to_symfloat_rounded(self) ** o
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        # constant base, symbolic exponent
        if isinstance(o, int) and o == 2:
            return _ilshift(1, self)
        return o ** self.concrete()

    def __lshift__(self, o):
        return _ilshift(self, o)

    def __rlshift__(self, o):
        return _ilshift(o, self)

    def __rshift__(self, o):
        return _irshift(self, o)

    def __rrshift__(self, o):
        return _irshift(o, self)

    def _bitop(self, o, op):
        if isinstance(o, SymBool):
            o = o.to_int()
        if not isinstance(o, int):
            return NotImplemented
        if not self.isbv or (isinstance(o, SymInt) and not o.isbv):
            return _bitop_int(self, o, op)
        if not isinstance(o, SymInt):
            o = const_int(o, True)
        w = max(self.t.size(), o.t.size())
        a, b = self.at(w), o.at(w)
        full_hi = (1 << (w - 1)) - 1
        lo, hi = -(1 << (w - 1)), full_hi
        if op == "and":
            t = a & b
            if self.lo >= 0 or o.lo >= 0:
                lo = 0
                hi = min(x.hi for x in (self, o) if x.lo >= 0)
        elif op == "or":
            t = a | b
            if self.lo >= 0 and o.lo >= 0:
                lo = max(self.lo, o.lo)
                hi = (1 << max(self.hi.bit_length(), o.hi.bit_length())) - 1
        else:
            t = a ^ b
            if self.lo >= 0 and o.lo >= 0:
                lo = 0
                hi = (1 << max(self.hi.bit_length(), o.hi.bit_length())) - 1
        return mk_bvint(t, lo, hi)

    def __and__(self, o):
        return self._bitop(o, "and")

    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(o, "or")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bitop(o, "xor")

    __rxor__ = __xor__


_INT_METHODS = {"bit_length", "bit_count", "to_bytes", "conjugate", "is_integer", "as_integer_ratio"}


class SymFraction(Sym):  # placeholder type so isinstance checks are cheap
    __slots__ = ()


def const_int(v, isbv):
    if isbv:
        w = _bits_for(v, v)
        return SymInt(z3.BitVecVal(v, w), v, v, True)
    return SymInt(z3.IntVal(v), v, v, False)


def mk_int(t, lo=None, hi=None):
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt.int_(t, lo, hi)


def mk_bvint(t, lo, hi):
    if lo == hi:
        return lo
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt.bv(t, lo, hi)


def mk_byte(t):
    """8-bit unsigned term -> int proxy"""
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return SymInt.from_unsigned(t)


def _wrap_iv(t, lo, hi, isbv):
    if isbv:
        return mk_bvint(t, lo, hi)
    return mk_int(t, lo, hi)


def _nadd(a, b):
    return None if a is None or b is None else a + b


def _iadd(a, b):
    lo, hi = _nadd(a.lo, b.lo), _nadd(a.hi, b.hi)
    if a.isbv:
        w = max(_bits_for(lo, hi), a.t.size(), b.t.size())
        return mk_bvint(a.at(w) + b.at(w), lo, hi)
    return mk_int(a.t + b.t, lo, hi)


def _isub(a, b):
    lo = None if a.lo is None or b.hi is None else a.lo - b.hi
    hi = None if a.hi is None or b.lo is None else a.hi - b.lo
    if a.isbv:
        w = max(_bits_for(lo, hi), a.t.size(), b.t.size())
        return mk_bvint(a.at(w) - b.at(w), lo, hi)
    return mk_int(a.t - b.t, lo, hi)


def _imul(a, b):
    if None in (a.lo, a.hi, b.lo, b.hi):
        lo = hi = None
        if a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
            lo = a.lo * b.lo
    else:
        ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        lo, hi = min(ps), max(ps)
    if a.isbv:
        w = max(_bits_for(lo, hi), a.t.size(), b.t.size())
        return mk_bvint(a.at(w) * b.at(w), lo, hi)
    return mk_int(a.t * b.t, lo, hi)


def _idivmod(a, b):
    """Python floor division and modulo."""
    if b.lo is not None and b.lo == b.hi:
        if b.lo == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
    else:
        if SymInt._cmp(b, 0, "eq"):
            raise ZeroDivisionError("integer division or modulo by zero")
    c = b.lo if (b.lo is not None and b.lo == b.hi) else None
    if a.isbv:
        m = max(abs(b.lo), abs(b.hi))
        qlo = -(max(abs(a.lo), abs(a.hi)) + 1)
        qhi = -qlo
        if a.lo >= 0 and b.lo >= 0:
            qlo, qhi = a.lo // max(b.hi, 1), a.hi // max(b.lo, 1)
        elif c is not None:
            qs = [a.lo // c, a.hi // c]
            qlo, qhi = min(qs), max(qs)
        if b.lo >= 0:
            rlo, rhi = 0, max(b.hi - 1, 0)
            if a.lo >= 0:
                rhi = min(rhi, a.hi)
        elif b.hi <= 0:
            rlo, rhi = b.lo + 1, 0
        else:
            rlo, rhi = -(m - 1), m - 1
        if c is not None and c > 0 and c & (c - 1) == 0:
            k = c.bit_length() - 1
            w = a.t.size()
            if k == 0:
                return mk_bvint(a.t, a.lo, a.hi), 0
            w2 = max(w, k + 1)
            t = a.at(w2)
            q = t >> k
            r = z3.ZeroExt(1, z3.Extract(k - 1, 0, t))
            return mk_bvint(q, qlo, qhi), mk_bvint(r, 0, c - 1)
        w = max(a.t.size(), b.t.size()) + 1
        x, y = a.at(w), b.at(w)
        if a.lo >= 0 and b.lo >= 0:
            q, r = z3.UDiv(x, y), z3.URem(x, y)
        else:
            q0 = x / y  # truncating
            r0 = z3.SRem(x, y)
            adj = z3.And(r0 != 0, (r0 < 0) != (y < 0))
            q = z3.If(adj, q0 - 1, q0)
            r = z3.If(adj, r0 + y, r0)
        return mk_bvint(q, qlo, qhi), mk_bvint(r, rlo, rhi)
    # mathematical integers: z3 div/mod are Euclidean
    x, y = a.t, b.t
    if c is not None and c > 0 or (b.lo is not None and b.lo >= 0):
        q, r = x / y, x % y
    elif c is not None and c < 0:
        q, r = (-x) / z3.IntVal(-c), -((-x) % z3.IntVal(-c))
    else:
        if SymInt._cmp(b, 0, "gt"):
            q, r = x / y, x % y
        else:
            q, r = (-x) / (-y), -((-x) % (-y))
    qlo = qhi = rlo = rhi = None
    if c is not None:
        if c > 0:
            rlo, rhi = 0, c - 1
        else:
            rlo, rhi = c + 1, 0
        if a.lo is not None and a.hi is not None:
            qs = [a.lo // c, a.hi // c]
            qlo, qhi = min(qs), max(qs)
    elif b.lo is not None and b.lo >= 0:
        rlo = 0
        if a.lo is not None and a.lo >= 0:
            qlo = 0
            qhi = a.hi
    return mk_int(z3.simplify(q), qlo, qhi), mk_int(z3.simplify(r), rlo, rhi)


def abs_(x):
    if isinstance(x, SymInt):
        if x.lo is not None and x.lo >= 0:
            return x
        if x.hi is not None and x.hi <= 0:
            return -x
        hi = None if x.lo is None or x.hi is None else max(-x.lo, x.hi)
        if x.isbv:
            w = _bits_for(-hi, hi)
            w = max(w, x.t.size())
            t = x.at(w)
            return mk_bvint(z3.If(t < 0, -t, t), 0, hi)
        return mk_int(z3.If(x.t < 0, -x.t, x.t), 0, hi)
    return abs(x)


def _ilshift(a, o):
    if is_sym(o):
        if isinstance(o, SymBool):
            o = o.to_int()
        if o.lo is not None and o.hi is not None and 0 <= o.lo and o.hi <= 4200 and o.isbv:
            if not isinstance(a, SymInt):
                a = const_int(int(a), True)
            if a.isbv:
                los = [a.lo << o.lo, a.lo << o.hi, a.hi << o.lo, a.hi << o.hi]
                lo, hi = min(los), max(los)
                w = max(_bits_for(lo, hi), a.t.size(), o.t.size())
                return mk_bvint(a.at(w) << o.at(w), lo, hi)
        o = o.concrete()
    if o < 0:
        raise ValueError("negative shift count")
    return a * (1 << o)


def _irshift(a, o):
    if is_sym(o):
        if isinstance(o, SymBool):
            o = o.to_int()
        if isinstance(a, (SymInt, int)) and o.isbv and o.lo >= 0:
            if not isinstance(a, SymInt):
                a = const_int(int(a), True)
            if a.isbv:
                los = [a.lo >> o.lo, a.lo >> o.hi, a.hi >> o.lo, a.hi >> o.hi]
                lo, hi = min(los), max(los)
                w = max(a.t.size(), o.t.size())
                return mk_bvint(a.at(w) >> o.at(w), lo, hi)
        o = o.concrete()
    if o < 0:
        raise ValueError("negative shift count")
    if not is_sym(a):
        return a >> o
    return a // (1 << o)


def _bitop_int(a, o, op):
    """Bit operations on mathematical integers, for the shapes that are exact."""
    if isinstance(o, SymInt) and not isinstance(a, SymInt):
        a, o = o, a
    if not isinstance(o, SymInt):
        c = int(o)
        if op == "and":
            if c == 0:
                return 0
            if c > 0 and (c & (c + 1)) == 0:
                return a % (c + 1)
            if c > 0:  # general mask: sum of bit runs
                r = 0
                i = 0
                while c >> i:
                    if (c >> i) & 1:
                        j = i
                        while (c >> j) & 1:
                            j += 1
                        r = r + ((a // (1 << i)) % (1 << (j - i))) * (1 << i)
                        i = j
                    else:
                        i += 1
                return r
            if c < 0:
                return a - _bitop_int(a, ~c, "and")
        if op == "or":
            return a + c - _bitop_int(a, c, "and")
        if op == "xor":
            return a + c - 2 * _bitop_int(a, c, "and")
    lo = [x.lo for x in (a, o)]
    hi = [x.hi for x in (a, o)]
    if None not in lo + hi:
        w = max(_bits_for(l, h) for l, h in zip(lo, hi))
        A = SymInt.bv(z3.Int2BV(a.as_int_term(), w), a.lo, a.hi)
        B = SymInt.bv(z3.Int2BV(o.as_int_term(), w), o.lo, o.hi)
        return A._bitop(B, op)
    raise Cut("bit operation on unbounded symbolic integers")


def ite(c, a, b):
    """Value-level if-then-else without forking, when the kinds allow it."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return SymBool(z3.If(c.b, to_z3bool(a), to_z3bool(b)))
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        if not is_sym(a) and not is_sym(b) and a == b:
            return a
        sa = a if isinstance(a, SymInt) else None
        sb = b if isinstance(b, SymInt) else None
        if sa is not None and sb is not None:
            sa, sb = sa._pair(sb)
        elif sa is not None:
            sb = const_int(int(b), sa.isbv)
        elif sb is not None:
            sa = const_int(int(a), sb.isbv)
        else:
            sa, sb = const_int(int(a), True), const_int(int(b), True)
        lo = None if sa.lo is None or sb.lo is None else min(sa.lo, sb.lo)
        hi = None if sa.hi is None or sb.hi is None else max(sa.hi, sb.hi)
        if sa.isbv:
            w = max(sa.t.size(), sb.t.size())
            return mk_bvint(z3.If(c.b, sa.at(w), sb.at(w)), lo, hi)
        return mk_int(z3.If(c.b, sa.t, sb.t), lo, hi)
    if isinstance(a, (float, SymFloat)) and isinstance(b, (float, SymFloat)):
        fa, fb = to_symfloat(a), to_symfloat(b)
        np = narrow_pair(fa, fb)
        nar = None if np is None else (np[0], z3.simplify(z3.If(c.b, np[1], np[2])))
        return SymFloat(z3.If(c.b, fa.bits, fb.bits), None, nar)
    return a if c else b


# --------------------------------------------------------------------------
# float


def f2b(f):
    return struct.unpack("!Q", struct.pack("!d", f))[0]


def b2f(b):
    return struct.unpack("!d", struct.pack("!Q", b))[0]


EXP = 0x7FF0000000000000
INFB = 0x7FF0000000000000


NARINF = {16: 0x7C00, 32: 0x7F800000}


class SymFloat(Sym):
    __slots__ = ("bits", "_fp", "nar", "iv")

    def __init__(self, bits, fp=None, nar=None):
        self.iv = None  # concrete numbers it lies between, if known (option fp=interval)
        self.bits = bits
        self._fp = fp
        self.nar = nar  # (width, bits) if the value is known to be of a narrower format

    @property
    def __class__(self):
        return float

    @property
    def fp(self):
        if self._fp is None:
            self._fp = z3.fpBVToFP(self.bits, F64)
        return self._fp

    @classmethod
    def from_fp(cls, fp):
        """A double given by an FP term (canonical NaN, as CPython produces)."""
        fp = z3.simplify(fp)
        bits = z3.If(z3.fpIsNaN(fp), z3.BitVecVal(0x7FF8000000000000, 64), z3.fpToIEEEBV(fp))
        return cls(bits, fp)

    # --- structure
    @property
    def mag(self):
        return z3.Extract(62, 0, self.bits)

    @property
    def sign(self):
        return z3.Extract(63, 63, self.bits) == 1

    def isnan(self):
        if self.nar is not None:
            w, b = self.nar
            return mk_bool(z3.simplify(z3.UGT(z3.Extract(w - 2, 0, b), z3.BitVecVal(NARINF[w], w - 1))))
        return mk_bool(z3.simplify(z3.UGT(self.mag, z3.BitVecVal(INFB, 63))))

    def isinf(self):
        if self.nar is not None:
            w, b = self.nar
            return mk_bool(z3.simplify(z3.Extract(w - 2, 0, b) == z3.BitVecVal(NARINF[w], w - 1)))
        return mk_bool(z3.simplify(self.mag == z3.BitVecVal(INFB, 63)))

    def isfinite(self):
        if self.nar is not None:
            w, b = self.nar
            return mk_bool(z3.simplify(z3.ULT(z3.Extract(w - 2, 0, b), z3.BitVecVal(NARINF[w], w - 1))))
        return mk_bool(z3.simplify(z3.ULT(self.mag, z3.BitVecVal(INFB, 63))))

    def key(self):
        """Unsigned 64-bit key ordering all non-NaN doubles; +-0 share a key."""
        return z3.If(
            self.mag == 0,
            z3.BitVecVal(1 << 63, 64),
            z3.If(self.sign, ~self.bits, self.bits | z3.BitVecVal(1 << 63, 64)),
        )

    # --- conversions
    def concrete(self):
        return b2f(E().concretize(self.bits).as_long())

    def __float__(self):
        return self.concrete()

    def __hash__(self):
        if E().opts.get("unhashable"):
            raise TypeError("unhashable: symbolic value")
        return hash(self.concrete())

    def __bool__(self):
        return bool(self != 0.0)

    def __repr__(self):
        return "<symfloat>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symfloat>"

    def hex(self):
        return "<symfloat>"

    def is_integer(self):
        if not self.isfinite():
            return False
        return self._is_integral()

    def _is_integral(self):
        """finite self: no fractional bits"""
        e = z3.ZeroExt(5, z3.Extract(62, 52, self.bits))  # 16 bits
        frac = z3.Extract(51, 0, self.bits)
        # unbiased exponent = e - 1023; integral iff e>=1075, or the low (1075-e) bits are zero
        sh = z3.ZeroExt(48, e - 1023)
        m = z3.ZeroExt(12, frac)
        shifted = m << sh  # keep only the fractional bits in 52
        fracbits = z3.Extract(51, 0, shifted)
        return mk_bool(
            z3.simplify(
                z3.Or(
                    self.mag == 0,
                    z3.UGE(e, 1075),
                    z3.And(z3.UGE(e, 1023), fracbits == 0),
                )
            )
        )

    def to_int_trunc(self):
        """int(self) for finite self"""
        if self.isnan():
            raise ValueError("cannot convert float NaN to integer")
        if self.isinf():
            raise OverflowError("cannot convert float infinity to integer")
        e = z3.Extract(62, 52, self.bits)
        if mk_bool(z3.simplify(z3.ULT(e, 1023 + 63))):
            frac = z3.Concat(z3.BitVecVal(1, 1), z3.Extract(51, 0, self.bits))  # 53 bits
            w = 53 + 64
            m = z3.ZeroExt(w - 53, frac)
            ew = z3.ZeroExt(w - 11, e)
            v = z3.If(
                z3.ULT(e, 1023),
                z3.BitVecVal(0, w),
                z3.LShR(m << (ew - 1023), 52),
            )
            v = z3.ZeroExt(1, z3.Extract(63, 0, v))
            hi = (1 << 63)
        else:
            frac = z3.Concat(z3.BitVecVal(1, 1), z3.Extract(51, 0, self.bits))
            w = 1026
            m = z3.ZeroExt(w - 53, frac)
            ew = z3.ZeroExt(w - 11, e)
            v = m << (ew - 1075)
            hi = (1 << 1024) - 1
        v = z3.If(self.sign, -v, v)
        r = mk_bvint(v, -hi, hi)
        if isinstance(r, SymInt):
            r.src = self
        return r

    def __trunc__(self):
        return self.to_int_trunc()

    def __int__(self):
        r = self.to_int_trunc()
        return r.concrete() if is_sym(r) else r

    def __floor__(self):
        r = self.to_int_trunc()
        if And(self < 0, Not(self._is_integral())):
            return r - 1
        return r

    def __ceil__(self):
        r = self.to_int_trunc()
        if And(self > 0, Not(self._is_integral())):
            return r + 1
        return r

    def __round__(self, n=None):
        if n is not None:
            raise Cut("round(float, n)")
        fp = z3.fpRoundToIntegral(RNE, self.fp)
        return SymFloat.from_fp(fp).to_int_trunc()

    def as_integer_ratio(self):
        raise Cut("as_integer_ratio of a symbolic float")

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    # --- comparison
    def _cmp(self, o, op):
        if isinstance(o, (SymBool,)):
            o = o.to_int()
        if isinstance(o, SymInt):
            return int_float_cmp(o, self, _FLIP[op])
        if isinstance(o, SymFloat):
            return float_cmp(self, o, op)
        if isinstance(o, (int, float)):
            if isinstance(o, int):
                return float_cmp_constint(self, int(o), op)
            return float_cmp(self, to_symfloat(o), op)
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    # --- arithmetic
    def _ar(self, o, f, g=None):
        if isinstance(o, (int, float)) or is_sym(o):
            if E().opts.get("fp") == "interval":
                return float_between(self, o, g)
            if E().opts.get("fp") == "havoc":
                # over-approximation: the result of rounding arithmetic is any double
                E().abstracted = True
                return SymFloat(z3.BitVec("aux!" + E().fresh_name("fparith"), 64))
            o = to_symfloat(o)
            return SymFloat.from_fp(f(self.fp, o.fp))
        return NotImplemented

    def __add__(self, o):
        return self._ar(o, lambda a, b: z3.fpAdd(RNE, a, b), lambda a, b: a + b)

    def __radd__(self, o):
        return self._ar(o, lambda a, b: z3.fpAdd(RNE, b, a), lambda a, b: b + a)

    def __sub__(self, o):
        return self._ar(o, lambda a, b: z3.fpSub(RNE, a, b), lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: z3.fpSub(RNE, b, a), lambda a, b: b - a)

    def __mul__(self, o):
        if not is_sym(o) and isinstance(o, (int, float)):
            if o == 1:
                return self
            if o == -1:
                return -self
        return self._ar(o, lambda a, b: z3.fpMul(RNE, a, b), lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if not (is_sym(o) or isinstance(o, (int, float))):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("float division by zero")
        return self._ar(o, lambda a, b: z3.fpDiv(RNE, a, b), lambda a, b: a / b)

    def __rtruediv__(self, o):
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        return self._ar(o, lambda a, b: z3.fpDiv(RNE, b, a), lambda a, b: b / a)

    def __floordiv__(self, o):
        raise Cut("float floor division")

    __rfloordiv__ = __floordiv__

    def __mod__(self, o):
        if isinstance(o, (int, float)) and not is_sym(o) and o == 1:
            raise Cut("float modulo")
        raise Cut("float modulo")

    __rmod__ = __mod__

    def __pow__(self, o):
        raise Cut("float power")

    __rpow__ = __pow__

    def __neg__(self):
        nar = self.nar
        if nar is not None:
            n = nar[0] - 1
            nar = (nar[0], z3.simplify(z3.Concat(~z3.Extract(n, n, nar[1]), z3.Extract(n - 1, 0, nar[1]))))
        return SymFloat(z3.simplify(z3.Concat(~z3.Extract(63, 63, self.bits), self.mag)), None, nar)

    def __pos__(self):
        return self

    def __abs__(self):
        nar = self.nar
        if nar is not None:
            nar = (nar[0], z3.simplify(z3.Concat(z3.BitVecVal(0, 1), z3.Extract(nar[0] - 2, 0, nar[1]))))
        return SymFloat(z3.simplify(z3.Concat(z3.BitVecVal(0, 1), self.mag)), None, nar)


def _interval(x):
    if isinstance(x, SymFloat):
        if x.iv is None and z3.is_bv_value(z3.simplify(x.bits)):
            c = x.concrete()
            x.iv = (c, c)
        return x.iv
    if isinstance(x, SymInt):
        try:
            return None if x.lo is None or x.hi is None else (float(x.lo), float(x.hi))
        except OverflowError:
            return None
    return None if is_sym(x) else (float(x), float(x))


def float_between(x, y, g):
    """over-approximation of rounding arithmetic, which is monotone: any double between the extreme results"""
    E().abstracted = True
    r = SymFloat(z3.BitVec("aux!" + E().fresh_name("fparith"), 64))
    a, b = _interval(x), _interval(y)
    if a is None or b is None or g is None:
        return r
    try:
        ends = [g(u, v) for u in a for v in b]
    except (ZeroDivisionError, OverflowError):
        return r
    if g(6.0, 3.0) in (2.0, 0.5):  # division: the divisor must not change sign
        d = b if g(6.0, 3.0) == 2.0 else a
        if d[0] <= 0 <= d[1]:
            return r
    if not all(abs(e) < float("inf") for e in (*ends, *a, *b)):
        return r
    r.iv = (min(ends), max(ends))
    E().assume(And(r >= r.iv[0], r <= r.iv[1]).b)
    return r


_NARFMT = {16: ("!e", "!H"), 32: ("!f", "!I")}


def _narrow_const(x, width):
    """narrow bits of a constant double that is exactly a value of the format, else None"""
    b = z3.simplify(x.bits)
    if not z3.is_bv_value(b):
        return None
    f = b2f(b.as_long())
    ff, fi = _NARFMT[width]
    try:
        d = struct.pack(ff, f)
    except OverflowError:
        return None
    if math.isnan(f) or struct.unpack(ff, d)[0] != f:
        return None
    return z3.BitVecVal(struct.unpack(fi, d)[0], width)


def narrow_pair(a, b):
    """(width, bits of a, bits of b) when both are values of one narrow format"""
    if a.nar is None and b.nar is None:
        return None
    if a.nar is not None and b.nar is not None:
        return (a.nar[0], a.nar[1], b.nar[1]) if a.nar[0] == b.nar[0] else None
    w = (a.nar or b.nar)[0]
    x = a.nar[1] if a.nar is not None else _narrow_const(a, w)
    y = b.nar[1] if b.nar is not None else _narrow_const(b, w)
    return None if x is None or y is None else (w, x, y)


def total_cmp(a, b, strict):
    """order by value with -0.0 below 0.0 (NaNs by their bits, beyond the infinities)"""
    a, b = to_symfloat(a), to_symfloat(b)
    np = narrow_pair(a, b)
    w, x, y = np if np is not None else (64, a.bits, b.bits)
    top = z3.BitVecVal(1 << (w - 1), w)
    kx = z3.If(z3.Extract(w - 1, w - 1, x) == 1, ~x, x | top)
    ky = z3.If(z3.Extract(w - 1, w - 1, y) == 1, ~y, y | top)
    return mk_bool(z3.simplify(z3.ULT(kx, ky) if strict else z3.ULE(kx, ky)))


def same_bits(a, b):
    a, b = to_symfloat(a), to_symfloat(b)
    np = narrow_pair(a, b)
    if np is not None:
        return mk_bool(z3.simplify(np[1] == np[2]))
    return mk_bool(z3.simplify(a.bits == b.bits))


def float_cmp(a, b, op):
    np = narrow_pair(a, b)
    if np is not None:
        w, x, y = np
        inf = {16: 0x7C00, 32: 0x7F800000}[w]
        top = z3.BitVecVal(1 << (w - 1), w)

        def key(v):
            m = z3.Extract(w - 2, 0, v)
            return z3.If(m == 0, top, z3.If(z3.Extract(w - 1, w - 1, v) == 1, ~v, v | top))

        ka, kb = key(x), key(y)
        nn = z3.And(
            z3.ULE(z3.Extract(w - 2, 0, x), z3.BitVecVal(inf, w - 1)),
            z3.ULE(z3.Extract(w - 2, 0, y), z3.BitVecVal(inf, w - 1)),
        )
        if op == "ne":
            return mk_bool(z3.simplify(z3.Or(z3.Not(nn), ka != kb)))
        r = {"eq": ka == kb, "lt": z3.ULT(ka, kb), "le": z3.ULE(ka, kb), "gt": z3.UGT(ka, kb), "ge": z3.UGE(ka, kb)}[op]
        return mk_bool(z3.simplify(z3.And(nn, r)))
    ka, kb = a.key(), b.key()
    nn = z3.And(
        z3.ULE(a.mag, z3.BitVecVal(INFB, 63)), z3.ULE(b.mag, z3.BitVecVal(INFB, 63))
    )
    if op == "ne":
        return mk_bool(z3.simplify(z3.Or(z3.Not(nn), ka != kb)))
    r = {"eq": ka == kb, "lt": z3.ULT(ka, kb), "le": z3.ULE(ka, kb), "gt": z3.UGT(ka, kb), "ge": z3.UGE(ka, kb)}[op]
    return mk_bool(z3.simplify(z3.And(nn, r)))


def float_cmp_constint(a, c, op):
    """Exact comparison of a double with a Python int."""
    try:
        f = float(c)
    except OverflowError:
        f = math.inf if c > 0 else -math.inf
        # finite floats and -inf below; +inf above (for c>0)
        if op == "eq":
            return False
        if op == "ne":
            return True
        inf = to_symfloat(f)
        if c > 0:  # a < c  <=>  a < inf
            return float_cmp(a, inf, "lt") if op in ("lt", "le") else float_cmp(a, inf, "ge")
        return float_cmp(a, inf, "gt") if op in ("gt", "ge") else float_cmp(a, inf, "le")
    if int(f) == c if not math.isinf(f) else False:
        return float_cmp(a, to_symfloat(f), op)
    if op == "eq":
        return False
    if op == "ne":
        return True
    # c lies strictly between two doubles
    if math.isinf(f):
        below = b2f(INFB - 1) if c > 0 else -math.inf
        above = math.inf if c > 0 else -b2f(INFB - 1)
    elif int(f) < c:
        below, above = f, math.nextafter(f, math.inf)
    else:
        below, above = math.nextafter(f, -math.inf), f
    if op in ("lt", "le"):
        return float_cmp(a, to_symfloat(below), "le")
    return float_cmp(a, to_symfloat(above), "ge")


def to_symfloat(x):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymBool):
        x = x.to_int()
    if isinstance(x, SymInt):
        return int_to_symfloat_rounded(x)
    return SymFloat(z3.BitVecVal(f2b(float(x)), 64))


def mk_float(bits):
    bits = z3.simplify(bits)
    if z3.is_bv_value(bits):
        return b2f(bits.as_long())
    return SymFloat(bits)


def _int_bv(x):
    if x.isbv:
        return x
    if x.lo is None or x.hi is None:
        # bound it by the path: within 2**62 or give up on this path
        if And(x > -(1 << 62), x < (1 << 62)):
            lo, hi = -(1 << 62), 1 << 62
        else:
            raise Cut("unbounded symbolic int converted to float")
    else:
        lo, hi = x.lo, x.hi
    return SymInt.bv(z3.Int2BV(x.t, _bits_for(lo, hi)), lo, hi)


def int_to_symfloat_rounded(x):
    """float(int): nearest double, ties to even; OverflowError when too large."""
    if not is_sym(x):
        return to_symfloat(float(x))
    if isinstance(x, SymBool):
        x = x.to_int()
    if E().opts.get("fp") == "interval" and _interval(x) is not None:
        # monotone as well
        r = SymFloat(z3.BitVec("aux!" + E().fresh_name("fparith"), 64))
        E().abstracted = True
        r.iv = _interval(x)
        E().assume(And(r >= r.iv[0], r <= r.iv[1]).b)
        return r
    x = _int_bv(x)
    if x.hi >= (1 << 1024) - (1 << 970) or x.lo <= -((1 << 1024) - (1 << 970)):
        if abs_(x) >= (1 << 1024) - (1 << 970):
            raise OverflowError("int too large to convert to float")
    w0 = max(x.t.size(), 14)
    if w0 > 200:
        # narrow by the path when possible
        if And(x >= -(1 << 63), x <= (1 << 63)):
            x = SymInt.bv(z3.Extract(64, 0, x.at(w0)), -(1 << 63), 1 << 63)
            w0 = x.t.size()
        else:
            raise Cut("float() of a symbolic integer beyond 2**63")
    t = x.at(w0)
    neg = t < 0
    m = z3.If(neg, -t, t)  # magnitude, unsigned, w0 bits
    W = max(w0, 55) if w0 > 53 else 54
    m = z3.ZeroExt(W - w0, m) if W > w0 else m
    # normalise: shift left until the top bit of W is set
    lz = z3.BitVecVal(0, 12)
    cur = m
    k = 1
    while k * 2 < W:
        k *= 2
    while k:
        if k < W:
            top0 = z3.Extract(W - 1, W - k, cur) == 0
            cur = z3.If(top0, cur << k, cur)
            lz = z3.If(top0, lz + k, lz)
        k //= 2
    # cur has its leading one at bit W-1 (unless m == 0)
    exp = z3.BitVecVal(1023 + W - 1, 12) - lz
    frac = z3.Extract(W - 2, W - 53, cur)  # 52 bits
    body = z3.Concat(z3.BitVecVal(0, 1), z3.Extract(10, 0, exp), frac)  # 64 bits with sign 0
    low = W - 53
    if low > 0:
        guard = z3.Extract(low - 1, low - 1, cur) == 1
        sticky = z3.Extract(low - 2, 0, cur) != 0 if low > 1 else z3.BoolVal(False)
        odd = z3.Extract(0, 0, frac) == 1
        body = z3.If(z3.And(guard, z3.Or(sticky, odd)), body + 1, body)
    body = z3.If(m == 0, z3.BitVecVal(0, 64), body)
    bits = z3.If(neg, body | z3.BitVecVal(1 << 63, 64), body)
    return SymFloat(z3.simplify(bits))


def int_float_cmp(a, f, op):
    """Exact comparison of SymInt a with SymFloat f (a op f)."""
    if isinstance(a, SymBool):
        a = a.to_int()
    if a.src is not None and a.src.bits.eq(f.bits) and op in ("eq", "ne"):
        r = f._is_integral()  # a is finite
        return r if op == "eq" else Not(r)
    a = _int_bv(a)
    K = a.t.size() - 1  # |a| <= 2**K
    K = min(K, 1024)
    w = 53 + K + 2
    e = z3.ZeroExt(w - 11, z3.Extract(62, 52, f.bits))
    m = z3.ZeroExt(w - 53, z3.Concat(z3.BitVecVal(1, 1), z3.Extract(51, 0, f.bits)))
    small = z3.ULT(e, 1023)
    big = z3.UGE(e, 1023 + K + 1) if K < 1023 else z3.BoolVal(False)
    sh = m << (e - 1023)
    ti = z3.If(small, z3.BitVecVal(0, w), z3.LShR(sh, 52))
    fr = z3.If(small, f.mag != 0, z3.Extract(51, 0, sh) != 0)
    neg = f.sign
    inf_or_nan = z3.UGE(f.mag, z3.BitVecVal(INFB, 63))
    nan = z3.UGT(f.mag, z3.BitVecVal(INFB, 63))
    big = z3.Or(big, inf_or_nan)
    # w bits signed comparisons of a with trunc(f)
    W = max(w + 1, a.t.size())
    av = a.at(W)
    tv = z3.ZeroExt(W - w, ti)
    tv = z3.If(neg, -tv, tv)
    eq = z3.And(z3.Not(big), z3.Not(fr), av == tv)
    # a < f: big -> f positive; else a < t, or a == t and f has a positive fraction
    lt = z3.If(big, z3.Not(neg), z3.Or(av < tv, z3.And(av == tv, fr, z3.Not(neg))))
    nn = z3.Not(nan)
    r = {
        "eq": z3.And(nn, eq),
        "ne": z3.Not(z3.And(nn, eq)),
        "lt": z3.And(nn, lt),
        "le": z3.And(nn, z3.Or(lt, eq)),
        "gt": z3.And(nn, z3.Not(z3.Or(lt, eq))),
        "ge": z3.And(nn, z3.Not(lt)),
    }[op]
    return mk_bool(z3.simplify(r))


_FLIP = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}


_W = {16: (16, 10, 15), 32: (32, 23, 127)}


def float_to_width_bits(x, width):
    """IEEE bits of x rounded (ties to even) to 16/32 bits; OverflowError like struct.pack."""
    if x.nar is not None and x.nar[0] == width:
        return x.nar[1]
    nb, mb, B = _W[width]
    bits = x.bits
    e = z3.Extract(62, 52, bits)
    frac = z3.Extract(51, 0, bits)
    sig = z3.Concat(z3.BitVecVal(1, 1), frac)  # 53
    top = 52 - mb
    emin = 1023 + 1 - B  # biased double exponent of the smallest normal
    isn = z3.UGE(e, emin)
    # normal: exponent field (e - 1023 + B), mantissa rounded
    w = nb + 13
    ef = z3.ZeroExt(w - 11, e) - (1023 - B)
    keep = z3.Extract(51, top, frac)
    body = (ef << mb) | z3.ZeroExt(w - mb, keep)
    g = z3.Extract(top - 1, top - 1, frac) == 1
    st = z3.Extract(top - 2, 0, frac) != 0
    odd = z3.Extract(0, 0, keep) == 1
    nbody = z3.If(z3.And(g, z3.Or(st, odd)), body + 1, body)
    # subnormal: shift right by top + (emin - e)
    W = 53 + 60
    big = z3.ZeroExt(7, z3.Concat(sig, z3.BitVecVal(0, 53)))  # W bits, sig above 53 zero bits
    d = z3.ZeroExt(W - 11, z3.BitVecVal(emin, 11) - e) + top
    d = z3.If(z3.UGT(d, 80), z3.BitVecVal(80, W), d)
    sh = z3.LShR(big, d)
    lost = big & ((z3.BitVecVal(1, W) << d) - 1)
    q = z3.Extract(53 + mb + 1, 53, sh)
    rem = z3.Extract(52, 0, sh)
    half = z3.BitVecVal(1 << 52, 53)
    up = z3.Or(
        z3.UGT(rem, half),
        z3.And(rem == half, z3.Or(lost != 0, z3.Extract(0, 0, q) == 1)),
    )
    sbody = z3.ZeroExt(w - (mb + 2), q)
    sbody = z3.If(up, sbody + 1, sbody)
    sbody = z3.If(e == 0, z3.BitVecVal(0, w), sbody)
    body = z3.If(isn, nbody, sbody)
    inf = ((1 << (nb - 1 - mb)) - 1) << mb
    finite = z3.ULT(x.mag, z3.BitVecVal(INFB, 63))
    over = mk_bool(z3.simplify(z3.And(finite, isn, z3.UGE(nbody, inf))))
    if over:
        raise OverflowError("float too large to pack with %s format" % {16: "e", 32: "f"}[width])
    isnan = z3.UGT(x.mag, z3.BitVecVal(INFB, 63))
    if width == 16:
        nanbody = z3.BitVecVal(0x7E00, nb - 1)
    else:
        nanbody = z3.Concat(z3.BitVecVal(0x1FF, 9), z3.Extract(50, 29, frac))
    r = z3.If(
        isnan, nanbody,
        z3.If(finite, z3.Extract(nb - 2, 0, body), z3.BitVecVal(inf, nb - 1)),
    )
    return z3.simplify(z3.Concat(z3.Extract(63, 63, bits), r))


def width_bits_to_float(bits, width):
    """Widen exactly, as struct.unpack does (NaNs become quiet)."""
    nb, mb, B = _W[width]
    eb = nb - 1 - mb
    s = z3.Extract(nb - 1, nb - 1, bits)
    e = z3.Extract(nb - 2, mb, bits)
    frac = z3.Extract(mb - 1, 0, bits)
    # subnormal: normalise
    lz = z3.BitVecVal(0, 12)
    cur = z3.Concat(z3.BitVecVal(0, 1), frac)  # mb+1 bits, value = frac
    k = 1
    n = mb + 1
    while k * 2 < n:
        k *= 2
    while k:
        if k < n:
            t0 = z3.Extract(n - 1, n - k, cur) == 0
            cur = z3.If(t0, cur << k, cur)
            lz = z3.If(t0, lz + k, lz)
        k //= 2
    sube = z3.BitVecVal(1023 + 1 - B, 12) - lz
    subf = z3.Extract(mb - 1, 0, cur)
    sub = z3.Concat(z3.Extract(10, 0, sube), subf, z3.BitVecVal(0, 52 - mb))
    nor = z3.Concat(
        z3.Extract(10, 0, z3.ZeroExt(12 - eb, e) + (1023 - B)), frac, z3.BitVecVal(0, 52 - mb)
    )
    if width == 16:
        nan = z3.BitVecVal(0x7FF8000000000000, 63)
    else:
        nan = z3.Concat(z3.BitVecVal(0xFFF, 12), z3.Extract(mb - 2, 0, frac), z3.BitVecVal(0, 52 - mb))
    full = (1 << eb) - 1
    body = z3.If(
        e == full,
        z3.If(frac == 0, z3.BitVecVal(INFB, 63), nan),
        z3.If(e == 0, z3.If(frac == 0, z3.BitVecVal(0, 63), sub), nor),
    )
    r = mk_float(z3.Concat(s, body))
    if isinstance(r, SymFloat):
        isnan = z3.And(e == full, frac != 0)
        if width == 16:
            q = z3.Concat(s, z3.BitVecVal(0x7E00, 15))
        else:
            q = bits | z3.BitVecVal(1 << (mb - 1), nb)
        r.nar = (width, z3.simplify(z3.If(isnan, q, bits)))
    return r


# --------------------------------------------------------------------------
# bytes and str: concrete length, elements are ints or SymInts


class _Seq(Sym):
    __slots__ = ("e",)
    empty = None

    def __init__(self, elems):
        self.e = tuple(elems)

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return bool(self.e)

    def __repr__(self):
        return "<sym%s>" % self.empty.__class__.__name__

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    @classmethod
    def lift(cls, o):
        """elements of o, or None when it is not this kind"""
        if isinstance(o, cls):
            return o.e
        if type(o) in cls.natives or isinstance(o, cls.natives):
            return tuple(cls.native_elems(o))
        return None

    def __add__(self, o):
        oe = self.lift(o)
        if oe is None:
            return NotImplemented
        return self.make(self.e + oe)

    def __radd__(self, o):
        oe = self.lift(o)
        if oe is None:
            return NotImplemented
        return self.make(oe + self.e)

    def __mul__(self, n):
        return self.make(self.e * n.__index__())

    __rmul__ = __mul__

    def __eq__(self, o):
        oe = self.lift(o)
        if oe is None:
            return NotImplemented
        if len(oe) != len(self.e):
            return False
        return And(*[a == b for a, b in zip(self.e, oe)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def _lex(self, o, strict):
        oe = self.lift(o)
        if oe is None:
            return NotImplemented
        r = (len(self.e) < len(oe)) if strict else (len(self.e) <= len(oe))
        for a, b in reversed(list(zip(self.e, oe))):
            r = Or(a < b, And(a == b, r))
        return r

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        r = self._lex(o, False)
        return r if r is NotImplemented else Not(r)

    def __ge__(self, o):
        r = self._lex(o, True)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        if E().opts.get("unhashable"):
            raise TypeError("unhashable: symbolic value")
        return hash(self.concrete())

    def concrete(self):
        return self.to_native([x.concrete() if is_sym(x) else x for x in self.e])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[x.__index__() if x is not None else None for x in (i.start, i.stop, i.step)])
            return self.make(self.e[i])
        return self.elem(self.e[i.__index__()])

    def __iter__(self):
        for x in self.e:
            yield self.elem(x)

    def __contains__(self, o):
        oe = self.lift_elem(o)
        n = len(oe)
        for i in range(len(self.e) - n + 1):
            if And(*[a == b for a, b in zip(self.e[i : i + n], oe)]):
                return True
        return False

    def startswith(self, p, *rest):
        if rest:
            raise Cut("startswith with offsets")
        if isinstance(p, tuple):
            return Or(*[self.startswith(q) for q in p])
        pe = self.lift(p)
        if len(pe) > len(self.e):
            return False
        return And(*[a == b for a, b in zip(self.e, pe)])

    def endswith(self, p, *rest):
        if rest:
            raise Cut("endswith with offsets")
        if isinstance(p, tuple):
            return Or(*[self.endswith(q) for q in p])
        pe = self.lift(p)
        if len(pe) > len(self.e):
            return False
        return len(pe) == 0 or And(*[a == b for a, b in zip(self.e[-len(pe):], pe)])

    def find(self, sub, start=0, end=None):
        oe = self.lift_elem(sub)
        n = len(oe)
        stop = len(self.e) if end is None else end
        for i in range(start, stop - n + 1):
            if And(*[a == b for a, b in zip(self.e[i : i + n], oe)]):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        oe = self.lift_elem(sub)
        if len(oe) != 1:
            raise Cut("count of a longer substring")
        n = 0
        for a in self.e:
            if a == oe[0]:
                n += 1
        return n

    def replace(self, old, new, count=-1):
        oe, ne = self.lift(old), self.lift(new)
        if len(oe) != 1:
            raise Cut("replace of a longer substring")
        out = []
        for a in self.e:
            if count != 0 and a == oe[0]:
                out.extend(ne)
                count -= 1
            else:
                out.append(a)
        return self.make(out)

    def join(self, it):
        return seq_join(self, it)

    def _strip(self, which, chars):
        e = self.e
        c = self.lift(chars)
        lo, hi = 0, len(e)
        if which in "lb":
            while lo < hi and Or(*[e[lo] == k for k in c]):
                lo += 1
        if which in "rb":
            while lo < hi and Or(*[e[hi - 1] == k for k in c]):
                hi -= 1
        return self.make(e[lo:hi])

    def lstrip(self, chars):
        return self._strip("l", chars)

    def rstrip(self, chars):
        return self._strip("r", chars)

    def strip(self, chars):
        return self._strip("b", chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Cut("whitespace split")
        s = self.lift(sep)
        if len(s) != 1:
            raise Cut("split on longer separator")
        out, cur = [], []
        for x in self.e:
            if maxsplit != 0 and x == s[0]:
                out.append(self.make(cur))
                cur = []
                maxsplit -= 1
            else:
                cur.append(x)
        out.append(self.make(cur))
        return out

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self


class SymBytes(_Seq):
    __slots__ = ()
    empty = b""
    natives = (bytes, bytearray)

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def native_elems(o):
        return o

    @staticmethod
    def elem(x):
        return x

    @staticmethod
    def to_native(xs):
        return bytes(xs)

    @staticmethod
    def make(xs):
        return mk_bytes(xs)

    def lift_elem(self, o):
        if isinstance(o, (int, SymInt)):
            return (o,)
        return self.lift(o)

    def decode(self, encoding="utf-8", errors="strict"):
        return utf8_decode(self.e, encoding, errors)

    def hex(self, *a):
        return "<symhex>"


class SymStr(_Seq):
    """elements are code points"""

    __slots__ = ()
    empty = ""
    natives = (str,)

    @property
    def __class__(self):
        return str

    @staticmethod
    def native_elems(o):
        return map(ord, o)

    @staticmethod
    def elem(x):
        return SymStr((x,)) if is_sym(x) else chr(x)

    @staticmethod
    def to_native(xs):
        return "".join(map(chr, xs))

    @staticmethod
    def make(xs):
        return mk_str(xs)

    def lift_elem(self, o):
        return self.lift(o)

    def encode(self, encoding="utf-8", errors="strict"):
        return utf8_encode(self.e, encoding, errors)


def mk_bytes(xs):
    xs = tuple(xs)
    if not any(is_sym(x) for x in xs):
        return bytes(xs)
    return SymBytes(xs)


def mk_str(xs):
    xs = tuple(xs)
    if not any(is_sym(x) for x in xs):
        return "".join(map(chr, xs))
    return SymStr(xs)


def seq_join(sep, it):
    items = list(it)
    if not is_sym(sep) and not any(is_sym(x) for x in items):
        return sep.join(items)
    cls = SymBytes if isinstance(sep, bytes) else SymStr
    se = cls.lift(sep)
    out = []
    for i, x in enumerate(items):
        xe = cls.lift(x)
        if xe is None:
            raise TypeError(f"sequence item {i}: expected {sep.__class__.__name__} instance")
        if i and se:
            out.extend(se)
        out.extend(xe)
    return cls.make(out)


def utf8_encode(cps, encoding, errors):
    enc = encoding.lower().replace("_", "-")
    if enc in ("ascii", "latin-1", "iso8859-1"):
        lim = 128 if enc == "ascii" else 256
        for c in cps:
            if c >= lim:
                raise UnicodeEncodeError(encoding, "?", 0, 1, "ordinal not in range")
        return mk_bytes(cps)
    if enc not in ("utf-8", "utf8"):
        raise Cut(f"encoding {encoding}")
    out = []
    for c in cps:
        if c < 0x80:
            out.append(c)
        elif c < 0x800:
            out += [0xC0 + c // 64, 0x80 + c % 64]
        elif c < 0x10000:
            if And(c >= 0xD800, c <= 0xDFFF):
                if errors not in ("surrogatepass",):
                    raise UnicodeEncodeError(encoding, "?", 0, 1, "surrogates not allowed")
            out += [0xE0 + c // 4096, 0x80 + (c // 64) % 64, 0x80 + c % 64]
        else:
            out += [0xF0 + c // 262144, 0x80 + (c // 4096) % 64, 0x80 + (c // 64) % 64, 0x80 + c % 64]
    return mk_bytes(out)


def utf8_decode(bs, encoding, errors):
    enc = encoding.lower().replace("_", "-")

    def bad():
        raise UnicodeDecodeError(encoding, b"?", 0, 1, "invalid")

    if enc == "ascii":
        for b in bs:
            if b >= 128:
                bad()
        return mk_str(bs)
    if enc in ("latin-1",):
        return mk_str(bs)
    if enc not in ("utf-8", "utf8"):
        raise Cut(f"encoding {encoding}")
    out = []
    i = 0
    n = len(bs)

    def cont(k):
        if k >= n:
            bad()
        if Not(And(bs[k] >= 0x80, bs[k] <= 0xBF)):
            bad()
        return bs[k] - 0x80

    while i < n:
        b = bs[i]
        if b < 0x80:
            out.append(b)
            i += 1
        elif And(b >= 0xC2, b <= 0xDF):
            out.append((b - 0xC0) * 64 + cont(i + 1))
            i += 2
        elif And(b >= 0xE0, b <= 0xEF):
            c1 = cont(i + 1)
            cp = (b - 0xE0) * 4096 + c1 * 64 + cont(i + 2)
            if cp < 0x800:
                bad()
            if And(cp >= 0xD800, cp <= 0xDFFF):
                if errors != "surrogatepass":
                    bad()
            out.append(cp)
            i += 3
        elif And(b >= 0xF0, b <= 0xF4):
            cp = (b - 0xF0) * 262144 + cont(i + 1) * 4096 + cont(i + 2) * 64 + cont(i + 3)
            if Or(cp < 0x10000, cp > 0x10FFFF):
                bad()
            out.append(cp)
            i += 4
        else:
            bad()
    return mk_str(out)
