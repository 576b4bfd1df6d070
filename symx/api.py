"""What harnesses see.  The same harness runs symbolically (SymEnv) and, for
replay, concretely on the unmodified code (ConcreteEnv).  This module must not
import z3 at module level: the concrete side runs without it."""

import calendar
import datetime as dt
import importlib
import struct


class Violation(Exception):
    """A check failed in a concrete run."""


class AssumptionFailed(BaseException):
    """A concrete run left the assumptions (cannot happen for a faithful replay)."""


class Unavailable(BaseException):
    """The code under test no longer has the entry point this harness drives."""


class Ob:
    """One proof obligation."""

    def __init__(self, name, fn, budget=40, thorough=None, tier="quick", only=None, opts=None, weight=None, **params):
        self.name = name
        self.fn = fn
        self.budget = budget
        self.thorough = thorough if thorough is not None else max(budget * 6, 300)
        self.tier = tier
        self.only = only  # "quick": not run in the thorough tier
        self.opts = opts or {}
        self.params = params
        self.weight = weight if weight is not None else budget


def quick_plan(obligations, deep=(), budgets=None):
    """what the quick tier leaves to the thorough one: whole obligations, or time for those no budget exhausts"""
    left = set(deep) | set(budgets or ())
    for o in obligations:
        if o.name in deep:
            o.tier = "thorough"
        if budgets and o.name in budgets:
            o.budget = budgets[o.name]
        left.discard(o.name)
    assert not left, left


def need(modname, *names):
    """Import names from a module of the code under test."""
    try:
        m = importlib.import_module(modname)
        r = []
        for n in names:
            o = m
            for part in n.split("."):
                o = getattr(o, part)
            r.append(o)
    except (ImportError, AttributeError) as e:
        raise Unavailable(f"{modname}: {e}")
    if not names:
        return m
    return r[0] if len(r) == 1 else r


def b2f(b):
    return struct.unpack("!d", struct.pack("!Q", b))[0]


def f2b(f):
    return struct.unpack("!Q", struct.pack("!d", f))[0]


class BaseEnv:
    symbolic = False

    def options(self, name, opts):
        return opts[self.choose(name, len(opts))]

    def require(self, c, msg):
        self.check(c, msg)

    # calendar values
    def date(self, name):
        y, m, d = self.int(name + ".y", 1, 9999), self.int(name + ".m", 1, 12), self.int(name + ".d", 1, 31)
        self.assume(d <= self.days_in_month(y, m))
        return self._cal("SymDate", y, m, d)

    def time(self, name):
        return self._cal("SymTime", *self._clock(name))

    def _clock(self, name):
        return [self.int(name + s, 0, n) for s, n in ((".H", 23), (".M", 59), (".S", 59), (".us", 999999))]

    def datetime(self, name):
        d = self.date(name)
        return self._cal("SymDatetime", d.year, d.month, d.day, *self._clock(name))

    def timedelta(self, name):
        d = self.int(name + ".days", -999999999, 999999999)
        return self._cal("SymTimedelta", d, self.int(name + ".s", 0, 86399), self.int(name + ".us", 0, 999999))


class ConcreteEnv(BaseEnv):
    def __init__(self, values, tolerant=False):
        self.v = dict(values)
        self.names = {}
        self.reached = []
        self.nchecks = 0
        self.tolerant = tolerant

    def _name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else f"{base}.{n}"

    def _get(self, name, default):
        name = self._name(name)
        if name not in self.v:
            # the path ended before this input was created in the symbolic run
            return default
        return self.v[name]

    def int(self, name, lo=None, hi=None, mode=None):
        d = 0
        if lo is not None and d < lo:
            d = lo
        if hi is not None and d > hi:
            d = hi
        return int(self._get(name, d))

    def bool(self, name):
        return bool(self._get(name, False))

    def float(self, name):
        return b2f(int(self._get(name, 0)))

    def choose(self, name, n):
        return self.int(name, 0, n - 1)

    def bytes(self, name, n):
        v = self._get(name, [0] * n)
        return bytes(v)

    def str(self, name, n, lo=0, hi=0x10FFFF):
        v = self._get(name, [lo] * n)
        return "".join(map(chr, v))

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def check(self, c, msg="check"):
        self.nchecks += 1
        if not c:
            raise Violation(msg)

    def reach(self, label):
        self.reached.append(label)

    def cut(self, why):
        raise AssumptionFailed()

    def must(self, c):
        return bool(c)

    def days_in_month(self, y, m):
        return calendar.monthrange(y, m)[1]

    def _cal(self, cls, *a):
        return {"SymDate": dt.date, "SymTime": dt.time, "SymDatetime": dt.datetime, "SymTimedelta": dt.timedelta}[cls](*a)

    def concretize(self, x):
        return x

    def hull(self, x):
        """concrete (possibly unknown) bounds of an integer"""
        return (x, x)

    def bits(self, f):
        return f2b(f)

    def is_nan(self, f):
        return f != f

    def is_inf(self, f):
        return f in (float("inf"), float("-inf"))

    def _rank(self, f):
        b = f2b(f)
        return ~(b & ((1 << 63) - 1)) if b >> 63 else b

    def total_le(self, x, y):
        return self._rank(x) <= self._rank(y)

    def total_lt(self, x, y):
        return self._rank(x) < self._rank(y)

    def narrower(self, f, width):
        return False

    def float_from_bits(self, b):
        return b2f(b)

    # logic
    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def same(self, a, b):
        """equal value, type and (for floats) bits"""
        if type(a) is not type(b):
            return False
        if isinstance(a, float):
            return f2b(a) == f2b(b)
        if isinstance(a, (tuple, list)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a == b


def sym_env_class():
    import z3

    from . import core
    from . import dates as D
    from . import values as V

    class SymEnv(BaseEnv):
        symbolic = True

        def __init__(self, eng):
            self.e = eng

        def _in(self, name, kind, proxy):
            self.e.inputs.append((name, kind, proxy))
            return proxy

        def int(self, name, lo=None, hi=None, mode=None):
            name = self.e.fresh_name(name)
            if lo is not None and hi is not None and lo == hi:
                return self._in(name, "int", lo)
            if lo is not None and hi is not None and mode != "int" and self.e.opts.get("ints") != "int":
                w = V._bits_for(lo, hi)
                t = z3.BitVec(name, w)
                x = V.SymInt(t, lo, hi, True)
                if lo != -(1 << (w - 1)):
                    self.e.assume(t >= lo)
                if hi != (1 << (w - 1)) - 1:
                    self.e.assume(t <= hi)
                return self._in(name, "int", x)
            t = z3.Int(name)
            cs = []
            if lo is not None:
                cs.append(t >= lo)
            if hi is not None:
                cs.append(t <= hi)
            if cs:
                self.e.assume(z3.And(*cs))
            return self._in(name, "int", V.SymInt.int_(t, lo, hi))

        def bool(self, name):
            name = self.e.fresh_name(name)
            return self._in(name, "bool", V.SymBool(z3.Bool(name)))

        def float(self, name):
            name = self.e.fresh_name(name)
            return self._in(name, "float", V.SymFloat(z3.BitVec(name, 64)))

        def choose(self, name, n):
            name = self.e.fresh_name(name)
            return self._in(name, "int", self.e.choose(n))

        def bytes(self, name, n):
            name = self.e.fresh_name(name)
            if n == 0:
                return self._in(name, "seq", b"")
            es = [V.SymInt.from_unsigned(z3.BitVec(f"{name}[{i}]", 8)) for i in range(n)]
            return self._in(name, "seq", V.SymBytes(es))

        def str(self, name, n, lo=0, hi=0x10FFFF):
            name = self.e.fresh_name(name)
            if n == 0:
                return self._in(name, "seq", "")
            es = []
            w = max(hi.bit_length(), 1)
            for i in range(n):
                if self.e.opts.get("ints") == "int":
                    t = z3.Int(f"{name}[{i}]")
                    self.e.assume(z3.And(t >= lo, t <= hi))
                    es.append(V.SymInt.int_(t, lo, hi))
                    continue
                t = z3.BitVec(f"{name}[{i}]", w)
                if lo > 0:
                    self.e.assume(z3.UGE(t, lo))
                if hi != (1 << w) - 1:
                    self.e.assume(z3.ULE(t, hi))
                es.append(V.SymInt.from_unsigned(t, lo, hi))
            return self._in(name, "seq", V.SymStr(es))

        def assume(self, c):
            self.e.assume(V.to_z3bool(c))

        def check(self, c, msg="check"):
            self.e.check(V.to_z3bool(c), msg)

        def reach(self, label):
            self.e.reach(label)

        def cut(self, why):
            self.e.cut(why)

        def must(self, c):
            return self.e.must(V.to_z3bool(c))

        def concretize(self, x):
            if isinstance(x, (V.SymInt, V.SymFloat, V._Seq)):
                return x.concrete()
            if isinstance(x, V.SymBool):
                return bool(x)
            return x

        def days_in_month(self, y, m):
            return D.dim(y, m)

        def _cal(self, cls, *a):
            return getattr(D, cls)(*a)

        def hull(self, x):
            if isinstance(x, V.SymInt):
                return (x.lo, x.hi)
            return (x, x)

        def bits(self, f):
            if isinstance(f, V.SymFloat):
                return V.SymInt.from_unsigned(f.bits)
            return f2b(f)

        def is_nan(self, f):
            return V.to_symfloat(f).isnan()

        def is_inf(self, f):
            return V.to_symfloat(f).isinf()

        def total_le(self, x, y):
            return V.total_cmp(x, y, False)

        def total_lt(self, x, y):
            return V.total_cmp(x, y, True)

        def narrower(self, f, width):
            """the value is known (by how it was made) to be of this narrower format"""
            return isinstance(f, V.SymFloat) and f.nar is not None and f.nar[0] == width

        def float_from_bits(self, b):
            if V.is_sym(b):
                return V.mk_float(z3.Extract(63, 0, b.at(max(b.t.size(), 64))))
            return b2f(b)

        def And(self, *xs):
            return V.And(*xs)

        def Or(self, *xs):
            return V.Or(*xs)

        def Not(self, x):
            return V.Not(x)

        def Implies(self, a, b):
            return V.Implies(a, b)

        def Iff(self, a, b):
            return V.Iff(a, b)

        def ite(self, c, a, b):
            return V.ite(c, a, b)

        def same(self, a, b):
            ca, cb = a.__class__, b.__class__
            if ca is not cb:
                return False
            if ca is float:
                return V.same_bits(a, b)
            if ca in (tuple, list):
                if len(a) != len(b):
                    return False
                return V.And(*[self.same(x, y) for x, y in zip(a, b)])
            return a == b

    return SymEnv


def input_values(eng, model):
    """Concrete values of this path's inputs under the model."""
    from . import values as V

    def ev(x):
        if isinstance(x, V.SymBool):
            return bool(is_true(model.eval(x.b, model_completion=True)))
        if isinstance(x, V.SymInt):
            v = model.eval(x.t, model_completion=True)
            return v.as_signed_long() if x.isbv else v.as_long()
        if isinstance(x, V.SymFloat):
            return model.eval(x.bits, model_completion=True).as_long()
        return x

    from z3 import is_true

    out = {}
    for name, kind, p in eng.inputs:
        if kind == "seq":
            if isinstance(p, V._Seq):
                out[name] = [ev(x) for x in p.e]
            else:
                out[name] = list(p) if isinstance(p, bytes) else [ord(c) for c in p]
        else:
            out[name] = ev(p)
    return out
