"""Dispatcher used by re-written code: what builtins and C functions mean on
symbolic values.  On concrete values everything falls through to CPython."""

import abc
import array
import builtins
import collections
import calendar
import decimal
import fractions
import functools
import math
import operator
import struct
import sys
import types

import z3

from . import core
from . import dates as D
from . import nums as N
from . import values as V
from .core import Cut
from .values import (
    And, Not, Or, Sym, SymBool, SymBytes, SymFloat, SymInt, SymStr, ite, mk_bytes, mk_str,
)

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
LruType = functools._lru_cache_wrapper
isS = V.is_sym


def opt(name):
    e = core.ENGINE
    return e is not None and e.opts.get(name)


# --------------------------------------------------------------------------
# containers with symbolic members


class SymRange:
    """range() with symbolic bounds (step 1 or -1)"""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        if isS(step):
            raise Cut("symbolic range step")

    @property
    def __class__(self):
        return range

    def __iter__(self):
        i = self.start
        n = 0
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > 5000:
                raise Cut("symbolic range longer than 5000")

    def length(self):
        s = self.step
        if s > 0:
            d = self.stop - self.start
            n = (d + (s - 1)) // s
        else:
            d = self.start - self.stop
            n = (d + (-s - 1)) // (-s)
        return max_(n, 0)

    def __len__(self):
        return operator.index(self.length())

    def __bool__(self):
        return bool(self.length() > 0)

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        s = self.step
        lo = (self.start <= x) if s > 0 else (x <= self.start)
        hi = (x < self.stop) if s > 0 else (x > self.stop)
        r = And(lo, hi)
        if abs(s) != 1:
            r = And(r, (x - self.start) % s == 0)
        return r

    def __getitem__(self, i):
        n = self.length()
        if isinstance(i, slice):
            return list(self)[i]
        if i < 0:
            i = i + n
        if Or(i < 0, i >= n):
            raise IndexError("range object index out of range")
        return self.start + i * self.step

    def __reversed__(self):
        return reversed(list(self))


class SymSet:
    """A set kept as a list of pairwise distinct members."""

    def __init__(self, it=()):
        self.m = []
        for x in it:
            self.add(x)

    @property
    def __class__(self):
        return set

    def has(self, x):
        return Or(*[eq_(x, y) for y in self.m])

    def add(self, x):
        hash_check(x)
        if not self.has(x):
            self.m.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        for i, y in enumerate(self.m):
            if eq_(x, y):
                del self.m[i]
                return

    def remove(self, x):
        n = len(self.m)
        self.discard(x)
        if len(self.m) == n:
            raise KeyError(x)

    def pop(self):
        return self.m.pop()

    def clear(self):
        self.m.clear()

    def copy(self):
        r = SymSet()
        r.m = list(self.m)
        return r

    def __len__(self):
        return len(self.m)

    def __iter__(self):
        return iter(list(self.m))

    def __contains__(self, x):
        return bool(self.has(x))

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __sub__(self, o):
        r = SymSet()
        for x in self.m:
            if not in_(x, o):
                r.m.append(x)
        return r

    def __and__(self, o):
        r = SymSet()
        for x in self.m:
            if in_(x, o):
                r.m.append(x)
        return r

    union = __or__
    difference = __sub__
    intersection = __and__

    def __eq__(self, o):
        if type(o) is not SymSet and not isinstance(o, (set, frozenset, type({}.keys()))):
            return NotImplemented
        if len(self) != len(o):
            return False
        return And(*[in_(x, o) for x in self.m])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def issubset(self, o):
        return And(*[in_(x, o) for x in self.m])

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def __repr__(self):
        return "<symset>"


def hash_check(x):
    if isS(x):
        return
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            hash_check(y)
        return
    hash(x)


class SymByteArray:
    """bytearray whose members may be symbolic"""

    def __init__(self, it=()):
        if isinstance(it, int):
            it = [0] * operator.index(it)
        self.e = list(it.e if isinstance(it, V._Seq) else it)

    @property
    def __class__(self):
        return bytearray

    def append(self, x):
        if Or(x < 0, x > 255):
            raise ValueError("byte must be in range(0, 256)")
        self.e.append(x)

    def extend(self, it):
        for x in it:
            self.append(x)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = SymByteArray(self.e)
        r.extend(o)
        return r

    def __radd__(self, o):
        return mk_bytes(tuple(o) + tuple(self.e))

    def __len__(self):
        return len(self.e)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymByteArray(self.e[i])
        return self.e[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.e[i] = list(v)
            return
        if Or(v < 0, v > 255):
            raise ValueError("byte must be in range(0, 256)")
        self.e[i] = v

    def __delitem__(self, i):
        del self.e[i]

    def __iter__(self):
        return iter(self.e)

    def reverse(self):
        self.e.reverse()

    def insert(self, i, x):
        self.e.insert(i, x)

    def pop(self, *a):
        return self.e.pop(*a)

    def clear(self):
        self.e.clear()

    def __bytes__(self):
        return V.mk_bytes(self.e) if not any(map(isS, self.e)) else SymBytes(self.e).concrete()

    def tobytes(self):
        return mk_bytes(self.e)

    def __eq__(self, o):
        return self.tobytes() == (o.tobytes() if isinstance(o, SymByteArray) else bytes(o) if not isS(o) else o)


class SymArray:
    """array.array of one of the unsigned type codes, whose members may be symbolic"""

    WIDTH = {c: 8 * array.array(c).itemsize for c in "BHILQ"}

    def __init__(self, code, it=()):
        self.typecode = code
        self.itemsize = self.WIDTH[code] // 8
        self.e = []
        for x in (it.e if isinstance(it, (SymArray, SymByteArray, V._Seq)) else it):
            self.e.append(self._ok(x))

    @property
    def __class__(self):
        return array.array

    def _ok(self, x):
        if not isinstance(x, int):
            raise TypeError("an integer is required")
        if not isS(x):
            if x < 0 or x >> self.WIDTH[self.typecode]:
                raise OverflowError("value out of range")
        elif Or(x < 0, x >= 1 << self.WIDTH[self.typecode]):
            raise OverflowError("value out of range")
        return x

    def _new(self, e):
        r = SymArray(self.typecode)
        r.e = e
        return r

    def append(self, x):
        self.e.append(self._ok(x))

    def extend(self, it):
        for x in it:
            self.append(x)

    def insert(self, i, x):
        self.e.insert(i, self._ok(x))

    def pop(self, *a):
        return self.e.pop(*a)

    def count(self, x):
        return list_count(self.e, x)

    def tolist(self):
        return list(self.e)

    def reverse(self):
        self.e.reverse()

    def __len__(self):
        return len(self.e)

    def __iter__(self):
        return iter(self.e)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._new(self.e[i])
        return get_(self.e, i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.e[i] = list(v)
            return
        self.e[i]  # an invalid position is reported before an invalid value
        self.e[i] = self._ok(v)

    def __delitem__(self, i):
        del self.e[i]

    def __mul__(self, n):
        return self._new(self.e * n)

    __rmul__ = __mul__

    def __add__(self, o):
        return self._new(self.e + list(o))

    def __eq__(self, o):
        if not isinstance(o, array.array):
            return NotImplemented
        return len(self.e) == len(o) and bool(V.And(*[x == y for x, y in zip(self.e, o)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return f"array({self.typecode!r}, {self.e!r})"


def array_(code, *a):
    if isinstance(code, str) and code in SymArray.WIDTH:
        return SymArray(code, *a)
    return array.array(code, *a)


def list_count(s, x):
    r = 0
    for y in s:
        r = r + V.ite(y == x, 1, 0)
    return r


class SymDict:
    """A dict kept as an association list of pairwise distinct keys."""

    def __init__(self, it=(), **kw):
        self.d = []
        self.update(it, **kw)

    @property
    def __class__(self):
        return dict

    def _find(self, k):
        for p in self.d:
            if eq_(k, p[0]):
                return p
        hash_check(k)
        return None

    def has(self, k):
        hash_check(k)
        return Or(*[eq_(k, p[0]) for p in self.d])

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        p = self._find(k)
        if p is None:
            raise KeyError(k)
        return p[1]

    def __setitem__(self, k, v):
        p = self._find(k)
        if p is None:
            self.d.append([k, v])
        else:
            p[1] = v

    def __delitem__(self, k):
        p = self._find(k)
        if p is None:
            raise KeyError(k)
        self.d = [q for q in self.d if q is not p]

    def get(self, k, default=None):
        p = self._find(k)
        return default if p is None else p[1]

    def setdefault(self, k, default=None):
        p = self._find(k)
        if p is None:
            self.d.append([k, default])
            return default
        return p[1]

    def pop(self, k, *default):
        p = self._find(k)
        if p is None:
            if default:
                return default[0]
            raise KeyError(k)
        self.d = [q for q in self.d if q is not p]
        return p[1]

    def popitem(self):
        if not self.d:
            raise KeyError("popitem(): dictionary is empty")
        return tuple(self.d.pop())

    def update(self, it=(), **kw):
        if isinstance(it, dict):
            it = it.items()
        for k, v in it:
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.d = []

    def copy(self):
        r = SymDict()
        r.d = [list(p) for p in self.d]
        return r

    def keys(self):
        return [p[0] for p in self.d]

    def values(self):
        return [p[1] for p in self.d]

    def items(self):
        return [(k, v) for k, v in self.d]

    def __iter__(self):
        return iter(self.keys())

    def __reversed__(self):
        return reversed(self.keys())

    def __len__(self):
        return len(self.d)

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(o) != len(self.d):
            return False
        for k, v in self.d:
            if not in_(k, o):
                return False
            if not eq_(get_(o, k), v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    __hash__ = None

    def __repr__(self):
        return "<symdict>"


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, it=(), **kw):
        self.default_factory = factory
        super().__init__(it, **kw)

    def __getitem__(self, k):
        p = self._find(k)
        if p is None:
            if self.default_factory is None:
                raise KeyError(k)
            p = [k, self.default_factory()]
            self.d.append(p)
        return p[1]

    def copy(self):
        r = SymDefaultDict(self.default_factory)
        r.d = [list(p) for p in self.d]
        return r


def defaultdict_(*a, **k):
    return SymDefaultDict(*a, **k) if opt("symdict") else collections.defaultdict(*a, **k)


def dict_(*a, **k):
    if opt("symdict"):
        return SymDict(*a, **k)
    if a and not isinstance(a[0], dict):
        ps = [tuple(p) for p in a[0]]
        if any(anysym((p[0],)) or type(p[0]) is tuple and anysym(p[0]) for p in ps):
            return SymDict(ps, **k)
        return dict(ps, **k)
    if a and type(a[0]) in (SymDict, SymDefaultDict):
        return SymDict(a[0], **k)
    return dict(*a, **k)


def dictlit_(ps):
    ps = list(ps)
    if ps and all(type(p[0]) is str for p in ps):
        return dict(ps)  # keyword-like dictionaries (signatures, annotations) stay native
    if opt("symdict") or any(isS(p[0]) or type(p[0]) is tuple and anysym(p[0]) for p in ps):
        return SymDict(ps)
    return dict(ps)


def setlit_(xs):
    return set_(list(xs))


# --------------------------------------------------------------------------
# operators


def not_(x):
    if type(x) is SymBool:
        return V.mk_bool(z3.Not(x.b))
    t = type(x)
    if not hasattr(t, "__bool__"):
        f = getattr(t, "__len__", None)
        if type(f) is FunctionType:  # whose result may be symbolic
            n = f(x)
            if isS(n):
                return n == 0
    return not x


def eq_(a, b):
    """a == b (identity first, as containers do), possibly symbolic"""
    if a is b:
        return True
    if type(a) in (tuple, list) and type(b) is type(a):
        if len(a) != len(b):
            return False
        return And(*[eq_(x, y) for x, y in zip(a, b)])
    r = a == b
    return r


def in_(a, c):
    tc = type(c)
    if tc in (list, tuple):
        r = []
        for x in c:
            e = eq_(a, x) if not isS(a) else (True if a is x else x == a)
            if type(e) is SymBool:
                r.append(e)
            elif e:
                if not r:
                    return True
                r.append(True)
                break
        return Or(*r)
    if isS(a):
        if tc in (dict, set, frozenset) or isinstance(c, (type({}.keys()), dict)):
            return Or(*[eq_(a, k) for k in c])
        if tc is range:
            if isinstance(a, SymInt):
                return SymRange(c.start, c.stop, c.step).contains(a)
            return a in c
        if tc is SymRange:
            return c.contains(a)
        if tc in (str, bytes):
            return a in (SymStr if tc is str else SymBytes)(tuple(c) if tc is bytes else map(ord, c))
    if tc is SymSet or tc is SymDict or tc is SymDefaultDict:
        return c.has(a)
    if tc is SymRange:
        return c.contains(a)
    if tc in (SymStr, SymBytes):
        ae = c.lift_elem(a)
        if ae is not None and len(ae) == 1:
            return Or(*[eq_(ae[0], x) for x in c.e])
    f = getattr(tc, "__contains__", None)
    if type(f) is FunctionType:
        r = f(c, a)
        return r if isS(r) else bool(r)
    return a in c


def notin_(a, c):
    return not_(in_(a, c))


def is_(a, c):
    if type(a) is SymBool:
        return a if c else not_(a)
    return a is c


def isnot_(a, c):
    return not_(is_(a, c))


OPS = {
    "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
    "eq": operator.eq, "ne": operator.ne,
}


def chain_(ops, *xs):
    acc = []
    r = True
    for i, o in enumerate(ops.split(",")):
        r = OPS[o](xs[i], xs[i + 1])
        if type(r) is SymBool:
            acc.append(r)
        elif isS(r) or not isinstance(r, bool):
            if acc and not And(*acc):
                return False
            acc = []
            if not r:
                return r
        elif not r:
            if not acc:
                return r
            return False
    return And(*acc) if acc else r


def and_(a, *lams):
    cur = a
    acc = []
    for f in lams:
        if type(cur) is SymBool:
            acc.append(cur)
        elif not cur:
            if acc:
                if isinstance(cur, bool):
                    return False
                if And(*acc):
                    return cur
                return False
            return cur
        nxt = f()
        if acc and not (type(nxt) is SymBool or type(nxt) is bool):
            if not And(*acc):
                return False
            acc = []
        cur = nxt
    if acc:
        return And(*acc, cur)
    return cur


def or_(a, *lams):
    cur = a
    acc = []
    for f in lams:
        if type(cur) is SymBool:
            acc.append(cur)
        elif cur:
            if acc:
                if isinstance(cur, bool):
                    return True
                if Or(*acc):
                    return True
                return cur
            return cur
        nxt = f()
        if acc and not (type(nxt) is SymBool or type(nxt) is bool):
            if Or(*acc):
                return True
            acc = []
        cur = nxt
    if acc:
        return Or(*acc, cur)
    return cur


def get_(o, i):
    if not isS(i):
        if type(i) is tuple and type(o) is dict and any(isS(x) for x in i):
            for k in o:
                if eq_(k, i):
                    return o[k]
            raise KeyError(i)
        return o[i]
    t = type(o)
    if t is SymDict or t is SymDefaultDict:
        return o[i]
    if isinstance(o, dict) and t.__getitem__ is dict.__getitem__:
        for k in o:
            if eq_(i, k):
                return o[k]
        m = getattr(t, "__missing__", None)
        if m is not None:
            return m(o, i)
        raise KeyError(i)
    if t is SymByteArray:
        o, t = o.e, list
    if t in (list, tuple, array.array, bytes, bytearray) and isinstance(i, (SymInt, SymBool)):
        return table_get(o, int__(i), t.__name__)
    return o[i]


def cutout_(o, i, j):
    """o[i:j]"""
    if isinstance(i, (SymInt, SymBool)) or isinstance(j, (SymInt, SymBool)):
        t = type(o)
        if t in (list, tuple, bytes, str, bytearray, SymByteArray) or isinstance(o, V._Seq):
            n = len(o)
            i, j = _slice_bound(i, n), _slice_bound(j, n)
    return o[i:j]


def _slice_bound(x, n):
    """a symbolic slice bound outside the sequence need not be concrete"""
    if not isinstance(x, (SymInt, SymBool)):
        return x
    x = int__(x)
    if x >= n:
        return n
    if x <= -n:
        return 0
    return x


def table_get(o, i, tname="list"):
    """o[i] for a sequence and a symbolic index"""
    n = len(o)
    if Or(i >= n, i < -n):
        raise IndexError(f"{tname} index out of range")
    if i.lo is None or i.lo < 0:
        if i < 0:
            i = i + n
    allint = all(isinstance(x, (int, SymInt)) and x.__class__ is int for x in o)
    if not allint:
        if n <= 64 and n and all(isinstance(x, (bool, SymBool)) for x in o):
            r = o[n - 1]
            for k in range(n - 2, -1, -1):
                r = ite(i == k, o[k], r)
            return r
        return o[i.concrete()]
    if n <= 8 or any(isS(x) for x in o) or not i.isbv:
        if n > 300:
            return o[i.concrete()]
        r = o[n - 1]
        for k in range(n - 2, -1, -1):
            r = ite(i == k, o[k], r)
        return r
    o = list(o)
    if n & (n - 1) == 0 and min(o) >= 0:
        # linear over GF(2)?
        bits = n.bit_length() - 1
        if o[0] == 0 and all(o[k] == (o[k & (k - 1)] ^ o[k & -k]) for k in range(1, n)):
            W = max(o).bit_length()
            it = i.at(max(i.t.size(), bits + 1))
            r = z3.BitVecVal(0, W)
            for b in range(bits):
                bit = z3.Extract(b, b, it)
                r = r ^ z3.If(bit == 1, z3.BitVecVal(o[1 << b], W), z3.BitVecVal(0, W))
            # disjoint masks: assemble by bit position, which bit-blasts to wiring
            masks = [o[1 << b] for b in range(bits)]
            if sum(masks) == (lambda a: a)(_or(masks)) and all(m & (m - 1) == 0 and m for m in masks):
                pos = {m.bit_length() - 1: b for b, m in enumerate(masks)}
                parts = [
                    z3.Extract(pos[p], pos[p], it) if p in pos else z3.BitVecVal(0, 1)
                    for p in range(W - 1, -1, -1)
                ]
                r = z3.Concat(*parts) if W > 1 else parts[0]
            return SymInt.from_unsigned(z3.simplify(r), 0, max(o))
    runs = []  # (first index, value there, step)
    k = 0
    while k < n:
        step = o[k + 1] - o[k] if k + 1 < n else 0
        j = k
        while j + 1 < n and o[j + 1] - o[j] == step:
            j += 1
        runs.append((k, o[k], step))
        k = j + 1
    if len(runs) <= 64:
        r = nxt = None
        for k, v, step in reversed(runs):
            e = v + (i - k) * step if step else v
            r = e if r is None else ite(i >= nxt, r, e)
            nxt = k
        lo, hi = min(o), max(o)
        if isS(r) and r.isbv:
            r = SymInt.bv(r.t, lo, hi) if V._bits_for(lo, hi) <= r.t.size() else r
        return r
    W = V._bits_for(min(o), max(o))
    bits = (n - 1).bit_length()
    it = i.at(max(i.t.size(), bits + 1))
    level = [z3.BitVecVal(v, W) for v in o]
    for b in range(bits):
        bit = z3.Extract(b, b, it) == 1
        nxt = []
        for k in range(0, len(level), 2):
            nxt.append(level[k] if k + 1 >= len(level) else z3.If(bit, level[k + 1], level[k]))
        level = nxt
    return V.mk_bvint(z3.simplify(level[0]), min(o), max(o))


def _or(ms):
    r = 0
    for m in ms:
        r |= m
    return r


# --------------------------------------------------------------------------
# builtin functions


def anysym(args, kw=None):
    for a in args:
        if isS(a):
            return True
    if kw:
        for a in kw.values():
            if isS(a):
                return True
    return False


def len_(x):
    if isS(x):
        return x.__len__()
    f = getattr(type(x), "__len__", None)
    if type(x) is SymRange:
        return x.length()
    if type(f) is FunctionType:
        r = f(x)
        if isS(r):
            return r
        return r if type(r) is int else operator.index(r)
    return len(x)


_MISSING = object()


def int__(x=_MISSING, *a, **k):
    if x is _MISSING:
        return int(*a, **k)
    if isinstance(x, SymBool):
        return x.to_int()
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymFloat):
        return x.to_int_trunc()
    if isinstance(x, (N.SymFraction, N.SymDecimal, N.LogVal)):
        return type(x).__trunc__(x)
    if isS(x):
        raise Cut("int() of symbolic text")
    if type(getattr(type(x), "__int__", None)) is FunctionType:
        r = type(x).__int__(x)
        return r if isS(r) else int(r)
    return int(x, *a, **k)


def float__(x=0.0):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return V.int_to_symfloat_rounded(x)
    return float(x)


def bool__(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymInt, SymFloat)):
        return x != 0
    return bool(x)


def type__(x, *a, **k):
    if a:
        return type(x, *a, **k)
    if isS(x) or type(x) in (SymSet, SymRange, SymByteArray):
        return x.__class__
    return type(x)


def str__(*a, **k):
    if a and isinstance(a[0], SymStr):
        return a[0]
    return str(*a, **k)


def bytes__(*a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, SymInt):
            x = x.concrete()
        if type(x) is SymByteArray:
            return x.tobytes()
        if not isinstance(x, (bytes, bytearray, int, str, memoryview)) and hasattr(x, "__iter__") and not hasattr(x, "__bytes__"):
            xs = list(x)
            for y in xs:
                if isS(y):
                    if Or(y < 0, y > 255):
                        raise ValueError("bytes must be in range(0, 256)")
            if any(isS(y) for y in xs):
                return mk_bytes(xs)
            return bytes(xs)
        return bytes(x)
    if len(a) > 1 and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:])
    return bytes(*a, **k)


def bytearray__(*a, **k):
    if len(a) > 1 or k:
        return bytearray(*a, **k)
    return SymByteArray(*a)


def abs__(x):
    if isinstance(x, SymInt):
        return V.abs_(x)
    return abs(x)


def _minmax(args, kw, less):
    key = kw.get("key")
    if len(args) == 1:
        xs = list(args[0])
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise ValueError("iterable argument is empty")
    else:
        xs = list(args)
    r = xs[0]
    kr = key(r) if key else r
    for x in xs[1:]:
        kx = key(x) if key else x
        c = less(kx, kr)
        if type(c) is SymBool:
            if key is None and _ite_able(x) and _ite_able(r):
                r = kr = ite(c, x, r)
                continue
            c = bool(c)
        if c:
            r, kr = x, kx
    return r


def _ite_able(x):
    return (isinstance(x, (int, float)) and type(x) is not bool) or isinstance(x, (SymInt, SymFloat))


def min_(*a, **k):
    return _minmax(a, k, lambda x, y: x < y)


def max_(*a, **k):
    return _minmax(a, k, lambda x, y: x > y)


def sum_(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def range_(*a):
    if not anysym(a):
        return range(*a)
    a = [x.to_int() if isinstance(x, SymBool) else x for x in a]
    if len(a) == 1:
        a = [0, a[0]]
    if len(a) == 2:
        a = [a[0], a[1], 1]
    return SymRange(*a)


def chr_(x):
    if isinstance(x, SymInt):
        if Or(x < 0, x > 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr((x,))
    return chr(x)


def ord_(x):
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x.e[0]
    if isinstance(x, SymBytes):
        return x.e[0]
    return ord(x)


def divmod_(a, b):
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return (a // b, a % b)
    return divmod(a, b)


def round_(x, n=None):
    if isS(x):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def pow_(a, b, *c):
    if isS(a) or isS(b):
        return a**b
    return pow(a, b, *c)


def set_(*a):
    if opt("symset"):
        return SymSet(*a)
    if a:
        xs = list(a[0])
        if any(isS(x) for x in xs):
            return SymSet(xs) if not opt("hashset") else set(xs)
        return set(xs)
    return set()


def frozenset_(*a):
    if a and opt("symset"):
        xs = list(a[0])
        if any(_deep_sym(x) for x in xs):
            r = SymSet(xs)
            return r
        return frozenset(xs)
    return frozenset(*a)


def isinstance_(x, t):
    return isinstance(x, t)


def sorted_(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def repr_(x):
    return repr(x)


def hex_(x):
    return "<symhex>" if isS(x) else hex(x)


def hash_(x):
    return hash(x)


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def any_(it):
    for x in it:
        if x:
            return True
    return False


# math -----------------------------------------------------------------------


def m_floor(x):
    if isinstance(x, (SymInt, SymBool)):
        return int__(x)
    if isinstance(x, SymFloat):
        return x.__floor__()
    if isinstance(x, (N.SymFraction, N.LogVal)):
        return type(x).__floor__(x)
    return math.floor(x)


def m_ceil(x):
    if isinstance(x, (SymInt, SymBool)):
        return int__(x)
    if isinstance(x, SymFloat):
        return x.__ceil__()
    if isinstance(x, (N.SymFraction, N.LogVal)):
        return type(x).__ceil__(x)
    return math.ceil(x)


def m_trunc(x):
    if isS(x):
        return int__(x)
    return math.trunc(x)


def m_isnan(x):
    if isinstance(x, SymFloat):
        return x.isnan()
    if isS(x):
        return False
    return math.isnan(x)


def m_isinf(x):
    if isinstance(x, SymFloat):
        return x.isinf()
    if isS(x):
        return False
    return math.isinf(x)


def m_isfinite(x):
    if isinstance(x, SymFloat):
        return x.isfinite()
    if isS(x):
        return True
    return math.isfinite(x)


def m_copysign(x, y):
    if isS(x) or isS(y):
        x, y = V.to_symfloat(x), V.to_symfloat(y)
        return V.mk_float(z3.Concat(z3.Extract(63, 63, y.bits), x.mag))
    return math.copysign(x, y)


def m_fabs(x):
    if isS(x):
        return abs(V.to_symfloat(x))
    return math.fabs(x)


def m_sqrt(x):
    if isS(x):
        x = V.to_symfloat(x)
        if opt("fp") == "havoc":
            # over-approximation: the argument is itself arbitrary
            e = core.ENGINE
            e.abstracted = True
            return SymFloat(z3.BitVec("aux!" + e.fresh_name("sqrt"), 64))
        if x < 0:
            raise ValueError("math domain error")
        return SymFloat.from_fp(z3.fpSqrt(V.RNE, x.fp))
    return math.sqrt(x)


def m_fsum(xs):
    xs = list(xs)
    if not any(isS(x) for x in xs):
        return math.fsum(xs)
    xs = [x for x in xs if isS(x) or x]
    if all(type(x) is int or isinstance(x, SymInt) for x in xs):
        return sum(xs)
    if len(xs) > 2:
        raise Cut("math.fsum of more than two values")
    # correctly rounded, as one addition is
    r = 0.0
    for x in xs:
        r = r + V.to_symfloat(x)
    return r


def m_nextafter(x, y, **k):
    if isS(x) or isS(y):
        x, y = V.to_symfloat(x), V.to_symfloat(y)
        if Or(x.isnan(), y.isnan()):
            return math.nan
        if x == y:
            return y
        up = V.to_z3bool(x < y)
        tiny = z3.If(up, z3.BitVecVal(1, 64), z3.BitVecVal((1 << 63) | 1, 64))
        away = z3.Xor(up, x.sign)
        b = z3.If(x.mag == 0, tiny, z3.If(away, x.bits + 1, x.bits - 1))
        return V.mk_float(b)
    return math.nextafter(x, y, **k)


def m_gcd(*a):
    if anysym(a):
        if len(a) != 2:
            raise Cut("gcd arity")
        x, y = V.abs_(a[0]), V.abs_(a[1])
        while y != 0:
            x, y = y, x % y
        return x
    return math.gcd(*a)


def m_isqrt(n):
    if isS(n):
        if n < 0:
            raise ValueError("isqrt() argument must be nonnegative")
        e = core.ENGINE
        r = e.fresh_int("isqrt")
        e.assume(V.to_z3bool(And(r >= 0, r * r <= n, (r + 1) * (r + 1) > n)))
        return r
    return math.isqrt(n)


def _first_at_least(lo, hi, base, y):
    """least n in [lo, hi] with math.log(n, base) >= y, or hi+1 (math.log taken to be monotone)"""
    if math.log(hi, base) < y:
        return hi + 1
    while lo < hi:
        m = (lo + hi) // 2
        if math.log(m, base) >= y:
            hi = m
        else:
            lo = m + 1
    return lo


def m_log(x, *base):
    """log of a symbolic integer to a concrete integer base.  The integers are split where the real
    math.log crosses s, s + 2e-7, s + 1/2, s + 1 - 2e-7 and s + 1 (found by bisection); within a
    region the result is represented by the least or the greatest value it takes there."""
    if not anysym((x, *base)):
        return math.log(x, *base)
    if len(base) != 1 or type(base[0]) is not int or base[0] < 2 or not isinstance(x, SymInt):
        raise Cut("math.log of a symbolic value")
    b = base[0]
    if x < 1:
        raise ValueError("math domain error")
    lo, s = 1, 0
    while not (x < b ** (s + 1)):
        s += 1
        lo = b**s
        if s > 4000:
            raise Cut("math.log of an unbounded value")
    hi = b ** (s + 1) - 1
    cuts = [lo]
    for y in (float(s), s + 2e-7, s + 0.5, s + 1 - 2e-7, float(s + 1)):
        k = _first_at_least(lo, hi, b, y)
        if cuts[-1] < k <= hi:
            cuts.append(k)
    i = len(cuts) - 1
    for j in range(1, len(cuts)):
        if x < cuts[j]:
            i = j - 1
            break
    first, last = cuts[i], (cuts[i + 1] - 1 if i + 1 < len(cuts) else hi)
    fl, fh = math.log(first, b), math.log(last, b)
    if fl == fh:
        return fl
    e = core.ENGINE
    e.abstracted = True
    return fl if e.branch(z3.Bool("aux!" + e.fresh_name("log"))) else fh


def m_cut(name, f):
    def g(*a, **k):
        if anysym(a, k):
            raise Cut(f"math.{name} of a symbolic value")
        return f(*a, **k)

    return g


# struct ---------------------------------------------------------------------

_SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "e": 2, "f": 4, "d": 8}


def _fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if fmt in ("d", "f", "e", "Q"):
        fmt = "<" + fmt
    if fmt[0] not in "!><":
        raise Cut(f"struct format {fmt}")
    out = []
    cnt = ""
    for c in fmt[1:]:
        if c.isdigit():
            cnt += c
            continue
        if c not in _SIZES:
            raise Cut(f"struct format {fmt}")
        out.extend(c * (int(cnt) if cnt else 1))
        cnt = ""
    return fmt[0] != "<", out


def s_pack(fmt, *args):
    if not anysym(args):
        return struct.pack(fmt, *args)
    big, cs = _fmt(fmt)
    if len(cs) != len(args):
        raise struct.error("pack expected %d items" % len(cs))
    out = []
    for c, a in zip(cs, args):
        n = _SIZES[c]
        if c in "efd":
            f = V.to_symfloat(a)
            bits = f.bits if c == "d" else V.float_to_width_bits(f, 8 * n)
        else:
            if not isinstance(a, (int, SymInt, SymBool)):
                raise struct.error("required argument is not an integer")
            a = int__(a)
            lo, hi = (0, (1 << 8 * n) - 1) if c.isupper() else (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1)
            if Or(a < lo, a > hi):
                raise struct.error("argument out of range")
            if not isS(a):
                bits = z3.BitVecVal(a, 8 * n)
            elif a.isbv:
                bits = z3.Extract(8 * n - 1, 0, a.at(max(a.t.size(), 8 * n)))
            else:
                bits = z3.Int2BV(a.t, 8 * n)
        bs = [V.mk_byte(z3.Extract(8 * i + 7, 8 * i, bits)) for i in range(n)]
        if big:
            bs.reverse()
        out.extend(bs)
    return mk_bytes(out)


def _byte_bv(b):
    if not isS(b):
        return z3.BitVecVal(b, 8)
    if b.isbv:
        return z3.Extract(7, 0, b.at(max(b.t.size(), 8)))
    return z3.Int2BV(b.t, 8)


def s_unpack(fmt, data):
    if not isS(data):
        return struct.unpack(fmt, data)
    big, cs = _fmt(fmt)
    if sum(_SIZES[c] for c in cs) != len(data):
        raise struct.error("unpack requires a buffer of %d bytes" % sum(_SIZES[c] for c in cs))
    out = []
    i = 0
    for c in cs:
        n = _SIZES[c]
        bs = list(data.e[i : i + n])
        i += n
        if not big:
            bs.reverse()
        bv = [_byte_bv(b) for b in bs]
        bits = z3.simplify(z3.Concat(*bv) if n > 1 else bv[0])
        if c == "d":
            out.append(V.mk_float(bits))
        elif c in "ef":
            out.append(V.width_bits_to_float(bits, 8 * n))
        elif c.isupper():
            out.append(bits.as_long() if z3.is_bv_value(bits) else SymInt.from_unsigned(bits))
        else:
            out.append(
                bits.as_signed_long()
                if z3.is_bv_value(bits)
                else SymInt.bv(bits, -(1 << 8 * n - 1), (1 << 8 * n - 1) - 1)
            )
    return tuple(out)


def int_from_bytes(data, byteorder="big", *, signed=False):
    if type(data) is SymByteArray:
        data = data.tobytes()
    if not isS(data):
        if not isinstance(data, (bytes, bytearray)):
            data = bytes__(data)
            if isS(data):
                return int_from_bytes(data, byteorder, signed=signed)
        return int.from_bytes(data, byteorder, signed=signed)
    bs = list(data.e)
    if byteorder == "little":
        bs.reverse()
    if not bs:
        return 0
    bv = [_byte_bv(b) for b in bs]
    bits = z3.simplify(z3.Concat(*bv) if len(bv) > 1 else bv[0])
    if z3.is_bv_value(bits):
        return bits.as_signed_long() if signed else bits.as_long()
    n = 8 * len(bs)
    if signed:
        return SymInt.bv(bits, -(1 << n - 1), (1 << n - 1) - 1)
    return SymInt.from_unsigned(bits)


# methods of concrete builtin objects called with symbolic arguments -----------


def _lift_self(s):
    if isinstance(s, str):
        return SymStr(map(ord, s))
    return SymBytes(tuple(s))


def d_get(d, k, default=None):
    if not (isS(k) or (type(k) is tuple and anysym(k))):
        return d.get(k, default)
    for q in d:
        if eq_(k, q):
            return d[q]
    return default


def d_setdefault(d, k, default=None):
    if isS(k) or (type(k) is tuple and anysym(k)):
        for q in d:
            if eq_(k, q):
                return d[q]
    return d.setdefault(k, default)


def d_pop(d, k, *default):
    if isS(k) or (type(k) is tuple and anysym(k)):
        for q in d:
            if eq_(k, q):
                return d.pop(q)
        if default:
            return default[0]
        raise KeyError(k)
    return d.pop(k, *default)


class _Join:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __call__(self, it):
        items = [x.tobytes() if type(x) is SymByteArray else x for x in it]
        return V.seq_join(self.s, items)


class _StrMeth:
    __slots__ = ("s", "f", "n")

    def __init__(self, s, f, n):
        self.s, self.f, self.n = s, f, n

    def __call__(self, *a, **k):
        if anysym(a, k):
            return getattr(_lift_self(self.s), self.n)(*a, **k)
        return self.f(*a, **k)


class _Bound:
    __slots__ = ("s", "h")

    def __init__(self, s, h):
        self.s, self.h = s, h

    def __call__(self, *a, **k):
        return self.h(self.s, *a, **k)


class _Lru:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        if anysym(a, k) or any(type(x) in (tuple, list) and _deep_sym(x) for x in a):
            return self.f.__wrapped__(*a, **k)
        return self.f(*a, **k)


def _deep_sym(x, d=3):
    if isS(x):
        return True
    if d and type(x) in (tuple, list):
        return any(_deep_sym(y, d - 1) for y in x)
    return False


def set_add(s, x):
    s.add(x)


FN = {}
TY = {
    int: int__, float: float__, bool: bool__, type: type__, str: str__, bytes: bytes__,
    array.array: array_, dict: dict_, bytearray: bytearray__, range: range_, set: set_, frozenset: frozenset_,
}
for _n, _f in dict(
    len=len_, abs=abs__, min=min_, max=max_, sum=sum_, chr=chr_, ord=ord_, divmod=divmod_,
    round=round_, pow=pow_, hex=hex_,
).items():
    FN[getattr(builtins, _n)] = _f
for _n in dir(math):
    _f = getattr(math, _n)
    if type(_f) is BuiltinType:
        FN[_f] = globals().get("m_" + _n) or m_cut(_n, _f)
FN[struct.pack] = s_pack
FN[struct.unpack] = s_unpack
for _c in (D.SymDate, D.SymTime, D.SymDatetime, D.SymTimedelta):
    TY[_c.real] = D.ctor(_c.real, _c)
TY[fractions.Fraction] = D.ctor(fractions.Fraction, N.SymFraction)
TY[complex] = D.ctor(complex, N.SymComplex)
TY[decimal.Decimal] = D.ctor(decimal.Decimal, N.SymDecimal)
FN[math.log10] = N.m_log10
PYFN = {calendar.monthrange: D.ctor(calendar.monthrange, types.SimpleNamespace(make=D.monthrange))}
DICT_METHS = {"get": d_get, "setdefault": d_setdefault, "pop": d_pop}
STR_METHS = {"startswith", "endswith", "find", "index", "count", "replace", "strip", "lstrip", "rstrip", "split"}


def f_(f):
    t = type(f)
    if t is FunctionType:
        return PYFN.get(f, f)
    if t is MethodType:
        return f
    if t is BuiltinType:
        s = f.__self__
        ts = type(s)
        if s is None or ts is types.ModuleType:
            return FN.get(f, f)
        n = f.__name__
        if ts is str or ts is bytes:
            if n == "join":
                return _Join(s)
            if n in STR_METHS:
                return _StrMeth(s, f, n)
            return f
        if isinstance(s, dict) and n in DICT_METHS and getattr(ts, n) is getattr(dict, n):
            return _Bound(s, DICT_METHS[n])
        if ts is list and n == "count" and (any(map(isS, s))):
            return _Bound(s, list_count)
        if ts is decimal.Context and n in N.CTX:
            return N.ctx_method(s, n, f)
        if s is int and n == "from_bytes":
            return int_from_bytes
        return f
    if t is type or t is abc.ABCMeta:
        return TY.get(f, f)
    if t is LruType:
        return _Lru(f)
    return f


HOOKS = {
    "_sx_f": f_, "_sx_not": not_, "_sx_in": in_, "_sx_notin": notin_, "_sx_is": is_,
    "_sx_isnot": isnot_, "_sx_chain": chain_, "_sx_and": and_, "_sx_or": or_, "_sx_get": get_, "_sx_cutout": cutout_,
    "_sx_dict": dictlit_, "_sx_set": setlit_,
}


def _factory(f, name):
    """attribute declarations whose factory is dict or set: a fresh one may be symbolic"""

    def wrapped(*a, **k):
        g = k.get(name)
        if g in (dict, set):
            k[name] = dict_ if g is dict else set_
        return f(*a, **k)

    return wrapped


import collections
import dataclasses  # noqa: E402

PYFN[dataclasses.field] = _factory(dataclasses.field, "default_factory")
try:
    import attr as _attr

    PYFN[_attr.ib] = _factory(_attr.ib, "factory")
except ImportError:
    pass


def counter_(*a, **k):
    if len(a) == 1 and not k and not isinstance(a[0], dict):
        xs = list(a[0])
        if anysym(tuple(xs)) or any(type(x) is tuple and anysym(x) for x in xs):
            d = SymDict()
            for x in xs:
                d[x] = (d[x] if x in d else 0) + 1
            return d
        return collections.Counter(xs)
    return collections.Counter(*a, **k)


TY[collections.Counter] = counter_
TY[collections.defaultdict] = defaultdict_
