"""C06: every generated primitive choice satisfies the constraints it was asked for."""

import math
from fractions import Fraction

from symx.api import Ob, need

from checks import fl
from checks.c07 import ask, request
from checks.c12 import patched

BOUNDS = (
    "every output of the random source (random, randint, getrandbits, choice, randbytes) and every byte buffer of up to 6 bytes (integers: 34) for the two built-in generators; integer bounds of any magnitude below "
    "2**130 for ranges, either side or both absent, weights over up to 3 members; the bounds of floats from a list of 30 shapes (signed zeros, subnormals, infinities, neighbours) or arbitrary, with arbitrary random bits; "
    "alphabets of up to 2 arbitrary intervals, text and bytes of up to 3 more elements than the minimum size of up to 3; constants of the program: any values"
)
OUTSIDE = "alternative backends, the probability distribution of the choices, more than 3 optional elements, rejection loops that try again more than twice"
ASSUMPTIONS = ["the decoding of 64 bits to a float is any non-negative float (decided by C02)", "rounding arithmetic on floats is any double between the extreme results (it is monotone)", "the random source keeps the promises of random.Random (0 <= random() < 1, randint within its bounds, ...)"]
P = "hypothesis.internal.conjecture.providers"
D = "hypothesis.internal.conjecture.data"
OPTS = {"unhashable": True, "symdict": True, "symset": True, "ints": "int"}
FOPTS = {"unhashable": True, "symdict": True, "symset": True, "logic": "QF_BV", "fp": "interval"}


class Unit:
    """k / 2**53 for an arbitrary k"""

    def __init__(self, k):
        self.k = k

    def __lt__(self, p):
        return self.k < math.ceil(Fraction(p) * 2**53)

    def __ge__(self, p):
        return self.k >= math.ceil(Fraction(p) * 2**53)

    def __le__(self, p):
        return self.k <= math.floor(Fraction(p) * 2**53)

    def __gt__(self, p):
        return self.k > math.floor(Fraction(p) * 2**53)


class Source:
    """a random source that returns anything"""

    def __init__(self, env, tries=3, limit=None):
        self.env = env
        self.n = 0
        self.limit = limit

    def used(self):
        self.n += 1
        if self.limit and self.n > self.limit:
            self.env.cut("more random outcomes than the bound")

    def random(self):
        self.used()
        return Unit(self.env.int("random", 0, 2**53 - 1))

    def randint(self, a, b):
        self.used()
        self.env.check(a <= b, "a random integer of an empty range was requested")
        v = self.env.int("randint", self.env.hull(a)[0], self.env.hull(b)[1])
        self.env.assume(self.env.And(a <= v, v <= b))
        return v

    def randrange(self, a, b=None):
        return self.randint(0, a - 1) if b is None else self.randint(a, b - 1)

    def getrandbits(self, k):
        self.used()
        return self.env.int("bits", 0, 2**k - 1)

    def choice(self, seq):
        self.used()
        self.env.check(len(seq) > 0, "a random element of an empty sequence was requested")
        return seq[self.env.choose("choice", len(seq))]

    def randbytes(self, n):
        self.used()
        return self.env.bytes("randbytes", n)


class Cache:
    """a cache that compares keys with =="""

    def __init__(self):
        self.entries = []

    def __contains__(self, key):
        return any(bool(k == key) for k, _ in self.entries)

    def __getitem__(self, key):
        for k, v in self.entries:
            if k == key:
                return v
        raise KeyError(key)

    def __setitem__(self, key, value):
        self.entries.append((key, value))

    def clear(self):
        self.entries = []


def standard(env, kind, body, constants=(), general=(), limit=None):
    """run the body with a test case drawing from the standard generator, with the given constants collected from the program under test"""
    HP, CD = need(P, "HypothesisProvider"), need(D, "ConjectureData")
    need(P, "GLOBAL_CONSTANTS", "CONSTANTS_CACHE", "_get_local_constants")

    class Plain(HP):
        avoid_realization = True

    def of(xs):
        return {k: (list(xs) if k == kind else []) for k in ("integer", "float", "string", "bytes")}

    with patched(need(P), GLOBAL_CONSTANTS=of(general), CONSTANTS_CACHE=Cache(), _get_local_constants=lambda: of(constants)):
        return body(CD(random=Source(env, limit=limit), provider=Plain))


def fuzzed(env, n, body, kind=None):
    """the same with a byte buffer"""
    BP, CD, Stop, St = need(P, "BytestringProvider"), need(D, "ConjectureData"), need("hypothesis.errors", "StopTest"), need(D, "Status")
    data = CD(random=None, provider=BP, provider_kw={"bytestring": env.bytes("buffer", n)})
    data.provider.avoid_realization = True
    try:
        return body(data)
    except Stop:
        env.check(data.status is St.OVERRUN, "a byte buffer that runs out ended the test case otherwise")
        env.reach("overrun")


def source(env, kind, body, where, constants=(), general=(), limit=None):
    if isinstance(where, int):
        return fuzzed(env, where, body)
    return standard(env, kind, body, constants, general, limit)


# --- integers


def bounds(env, form, big):
    lo = env.int("lo", -big, big) if "l" in form else None
    hi = env.int("hi", -big, big) if "h" in form else None
    if lo is not None and hi is not None:
        env.assume(lo <= hi)
    return lo, hi


def inside(env, v, lo, hi):
    return env.And(type(v) is int, True if lo is None else lo <= v, True if hi is None else v <= hi)


def integers(env, form, where, big=2**130, width=None, constants=0, limit=8):
    lo, hi = bounds(env, form, big)
    if width is not None:
        env.assume(hi - lo < width)
    toward = env.int("toward", -big, big)
    cs = [env.int("constant") for _ in range(constants)]

    def body(data):
        v = data.draw_integer(lo, hi, shrink_towards=toward)
        env.reach("drawn")
        env.check(inside(env, v, lo, hi), "an integer outside its bounds")

    source(env, "integer", body, where, cs[:1], cs[1:], limit)


def weighted(env, where, weights, lo, hi):
    def body(data):
        v = data.draw_integer(lo, hi, weights=weights)
        env.reach("drawn")
        env.check(inside(env, v, lo, hi), "an integer outside its bounds")

    source(env, "integer", body, where, [env.int("constant")], [], 8)


def booleans(env, where):
    p = env.options("p", (0.0, 5e-324, 2.0**-60, 0.001, 0.1, 0.5, 0.999, 1 - 2.0**-53, 1.0))

    def body(data):
        v = data.draw_boolean(p)
        env.reach("drawn")
        env.check(type(v) is bool, "not a boolean")
        if p == 0.0 or p == 1.0:
            env.check(v == (p == 1.0), "a boolean that its probability rules out")

    source(env, "boolean", body, where)


# --- floats

TINY = 2.0**-1022
SHAPES = {
    "any": (-math.inf, math.inf),
    "finite": (-1.7976931348623157e308, 1.7976931348623157e308),
    "positive": (0.0, math.inf),
    "from minus zero": (-0.0, math.inf),
    "to zero": (-math.inf, 0.0),
    "to minus zero": (-math.inf, -0.0),
    "zeros": (-0.0, 0.0),
    "zero": (0.0, 0.0),
    "minus zero": (-0.0, -0.0),
    "one value": (1.5, 1.5),
    "neighbours": (1.5, 1.5000000000000002),
    "one": (1.0, 1.9999999999999998),
    "unit": (0.0, 1.0),
    "around zero": (-1.0, 1.0),
    "tenths": (0.1, 0.7),
    "negative": (-1e300, -1e-300),
    "huge": (1e300, 1.7976931348623157e308),
    "infinite": (math.inf, math.inf),
    "minus infinite": (-math.inf, -math.inf),
    "least": (5e-324, 5e-324),
    "least to one": (5e-324, 1.0),
    "subnormal": (1e-310, 2e-310),
    "subnormal around zero": (-1e-310, 1e-310),
    "subnormal to zero": (-1e-310, 0.0),
    "subnormal to minus zero": (-1e-310, -0.0),
    "subnormal from zero": (0.0, 1e-310),
    "subnormal from minus zero": (-0.0, 1e-310),
    "to subnormal": (-3.0, 1e-310),
    "from subnormal": (1e-310, 3.0),
    "from negative subnormal": (-1e-310, 3.0),
    "to negative subnormal": (-3.0, -1e-310),
}


def floats(env, where, shape, part="all"):
    lo, hi = SHAPES[shape]
    nan = env.bool("allow_nan")
    snm = env.options("smallest_nonzero_magnitude", (5e-324, TINY))
    if not nan:
        # something must be permitted
        env.assume(fl.nonempty(env, lo, hi, False, snm))
    elif lo > 0 and hi < snm or hi < 0 and lo > -snm:
        env.assume(False)
    cs = [env.float("constant")]

    def body(data):
        v = data.draw_float(lo, hi, allow_nan=nan, smallest_nonzero_magnitude=snm)
        env.reach("drawn")
        env.check(type(v) is float, "not a float")
        env.check(fl.permitted(env, v, lo, hi, nan, snm), "a float that is not permitted")

    with decoded(env):
        source(env, "float", body, where, cs, [])


def decoded(env):
    """the decoding of a float is decided by C02: any non-negative float"""

    def lex_to_float(i):
        f = env.float("decoded")
        env.assume(env.bits(f) < 2**63)
        return f

    return patched(need(P), lex_to_float=lex_to_float)


# --- text and bytes


def text(env, where, k, lo, hi, wide=False, constants=1):
    IS = need("hypothesis.internal.intervalsets", "IntervalSet")
    out, prev = [], None
    for j in range(k):
        u, v = env.int(f"from{j}", 0, 0x10FFFF), env.int(f"to{j}", 0, 0x10FFFF)
        env.assume(u <= v)
        if prev is not None:
            env.assume(prev + 1 < u)
        prev = v
        out.append((u, v))
    if k and wide:
        env.assume(out[0][1] - out[0][0] > 300)
    elif k:
        env.assume(out[0][1] - out[0][0] < 100)
    cs = [env.str("constant", 1) for _ in range(constants)]

    def body(data):
        v = data.draw_string(IS(tuple(out)), min_size=lo, max_size=hi)
        env.reach("drawn")
        env.check(isinstance(v, str), "not text")
        env.check(lo <= len(v) <= hi, "text of a size outside the bounds")
        for c in v:
            env.check(env.Or(*[env.And(a <= ord(c), ord(c) <= b) for a, b in out]), "a character outside the alphabet")

    source(env, "string", body, where, cs, [])


def binary(env, where, lo, hi):
    n = env.choose("length", 4)
    cs = [env.bytes("constant", n)]

    def body(data):
        v = data.draw_bytes(lo, hi)
        env.reach("drawn")
        env.check(type(v) is bytes, "not bytes")
        env.check(lo <= len(v) <= hi, "bytes of a size outside the bounds")

    source(env, "bytes", body, where, cs, [])


# --- forced values


def forced(env, kind, where):
    r = request(env, kind, True)

    def body(data):
        got = ask(data, r)
        env.check(env.same(got, r[2]), "a forced value was changed")
        env.check(len(data.nodes) == 1 and env.same(data.nodes[0].value, r[2]), "a forced value was recorded otherwise")
        if not isinstance(where, int):
            env.check(data.provider._random.n == 0 if hasattr(data.provider, "_random") else True, "randomness was used up for a forced value")
        env.reach("forced")

    source(env, kind, body, where)


def forced_weighted(env, where, weights, lo, hi):
    v = env.int("v", lo, hi)

    def body(data):
        got = data.draw_integer(lo, hi, weights=weights, forced=v)
        env.check(got == v, "a forced value was changed")
        env.reach("forced")

    source(env, "integer", body, where)


# --- constants: the cache of permitted constants


def twice(env, kind):
    """the constants permitted for one request are not used for another one"""
    c = {"integer": lambda: env.int("constant"), "float": lambda: env.float("constant"), "bytes": lambda: env.bytes("constant", env.choose("len", 3)), "string": lambda: env.str("constant", 1)}[kind]()
    IS = need("hypothesis.internal.intervalsets", "IntervalSet")

    def body(data):
        for _ in range(2):
            if kind == "integer":
                a = env.int("lo", -1000, 1000)
                v = data.draw_integer(a, a + 1)
                env.check(inside(env, v, a, a + 1), "an integer outside its bounds")
            elif kind == "float":
                a, b = env.options("bounds", ((-0.0, 0.0), (0.0, 0.0), (1.0, 1.0)))
                snm = env.options("snm", (5e-324, TINY))
                nan = env.bool("nan")
                v = data.draw_float(a, b, allow_nan=nan, smallest_nonzero_magnitude=snm)
                env.check(fl.permitted(env, v, a, b, nan, snm), "a float that is not permitted")
            elif kind == "bytes":
                a = env.choose("size", 2)
                v = data.draw_bytes(a, a)
                env.check(len(v) == a, "bytes of a size outside the bounds")
            else:
                a = env.int("letter", 97, 122)
                n = env.choose("size", 2)
                v = data.draw_string(IS(((a, a),)), min_size=n, max_size=1)
                env.check(n <= len(v) <= 1, "text of a size outside the bounds")
                for x in v:
                    env.check(ord(x) == a, "a character outside the alphabet")
        env.reach("drawn")

    with decoded(env):
        standard(env, kind, body, [c])


# --- helpers


class Q:
    """a multiple of 1 / total"""

    total = 1

    def __init__(self, n=0):
        self.n = n * Q.total

    @classmethod
    def of(cls, n):
        q = cls()
        q.n = n
        return q

    def __add__(self, o):
        return Q.of(self.n + (o.n if isinstance(o, Q) else o * Q.total))

    __radd__ = __add__

    def __neg__(self):
        return Q.of(-self.n)

    def __sub__(self, o):
        return self + -o

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, k):
        return Q.of(self.n * k)

    def __truediv__(self, o):
        if not o.n == Q.total:
            raise ZeroDivisionError
        return self

    def diff(self, o):
        return self.n - (o.n if isinstance(o, Q) else o * Q.total)

    def __eq__(self, o):
        return self.diff(o) == 0

    def __lt__(self, o):
        return self.diff(o) < 0

    def __gt__(self, o):
        return self.diff(o) > 0

    def __le__(self, o):
        return self.diff(o) <= 0

    def __ge__(self, o):
        return self.diff(o) >= 0


def sampler(env, n, total):
    """every index is chosen with exactly the probability of its weight, and an index of weight zero never"""
    Sampler = need("hypothesis.internal.conjecture.utils", "Sampler")
    table = need("hypothesis.internal.conjecture.utils", "compute_sampler_table")
    Q.total = total
    ws = [env.int("weight", 0, total) for _ in range(n)]
    s = 0
    for w in ws:
        s = s + w
    env.assume(s == total)
    rows = getattr(table, "__wrapped__", table)(tuple(Q.of(w) for w in ws))
    env.check(len(rows) == n, "the table has another number of rows")
    for i in range(n):
        p = Q(0)
        for base, alternate, chance in rows:
            env.check(env.And(chance >= 0, chance <= 1), "a chance outside 0..1")
            if base == i:
                p = p + (1 - chance)
            if alternate == i:
                p = p + chance
        env.check(p == Q.of(ws[i] * n), "an index is not chosen with the probability of its weight")
    env.reach("table")


def many_sizes(env, where, lo, hi):
    """the number of elements kept is within the bounds, whichever are rejected"""
    many, St, Stop = need("hypothesis.internal.conjecture.utils", "many"), need(D, "Status"), need("hypothesis.errors", "StopTest")
    avg = env.options("average", (lo, (lo + hi) / 2, lo + (hi - lo) / 4))
    force = env.choose("forced size", hi - lo + 2)
    force = None if force > hi - lo else lo + force
    if force not in (None, lo) or lo:
        env.assume(avg > lo)

    def body(data):
        m = many(data, min_size=lo, max_size=hi, average_size=avg, forced=force)
        kept = tries = 0
        try:
            while m.more():
                tries += 1
                if tries > hi + 3:
                    env.cut("more attempts than the bound")
                if force is None and env.bool("reject"):
                    m.reject()
                else:
                    kept += 1
        except Stop:
            if data.status is St.OVERRUN:
                raise
            env.check(data.status is St.INVALID and kept < lo, "the test case was rejected although enough elements were kept")
            env.reach("rejected")
            return
        env.check(lo <= kept <= hi, "a number of elements outside the bounds")
        if force is not None:
            env.check(kept == force, "another number of elements than was forced")
        env.reach("done")

    source(env, "boolean", body, where)


R = "random"
WEIGHTS = {"a": ({0: 0.1, 5: 0.2}, 0, 10), "b": ({-7: 0.9}, -7, 300), "c": ({3: 0.25, 1: 0.25, 2: 0.25}, 1, 3), "big": ({2**40: 0.5, 0: 0.4}, 0, 2**40)}
QUICK = ("subnormal around zero", "subnormal to minus zero", "to negative subnormal", "zeros", "unit", "tenths", "any", "neighbours")
OBLIGATIONS = [
    *[Ob(f"integers, bounds {f or 'absent'}", integers, 60, form=f, where=R, constants=1, opts=OPTS) for f in ("", "l", "h")],
    Ob("integers, wide range", integers, 60, form="lh", where=R, limit=6, opts=OPTS),
    Ob("integers, wide range, a constant", integers, 100, tier="thorough", form="lh", where=R, constants=1, opts=OPTS),
    Ob("integers, small range", integers, 60, form="lh", where=R, width=2**20, constants=2, opts=OPTS),
    Ob("integers, wide range, two constants", integers, 150, tier="thorough", form="lh", where=R, constants=2, limit=12, opts=OPTS),
    *[Ob(f"integers of a buffer of {n}, bounds {f or 'absent'}", integers, 60, form=f, where=n, big=2**66, opts=OPTS) for f, n in (("", 15), ("", 33), ("l", 9), ("h", 9))],
    *[Ob(f"integers of a buffer, range below 2**{b}", integers, 60, form="lh", where=n, big=2**66, width=2**b, opts=OPTS) for b, n in ((6, 3), (16, 4), (33, 5))],
    *[Ob(f"weights {n}", weighted, 60, where=R, weights=w, lo=lo, hi=hi, opts=OPTS) for n, (w, lo, hi) in WEIGHTS.items()],
    *[Ob(f"weights {n}, buffer", weighted, 60, where=12, weights=w, lo=lo, hi=hi, opts=OPTS) for n, (w, lo, hi) in WEIGHTS.items()],
    Ob("booleans", booleans, 40, where=R, opts=OPTS),
    *[Ob(f"booleans of a buffer of {n}", booleans, 40, where=n, opts=OPTS) for n in (0, 1)],
    *[Ob(f"floats, {s}", floats, 60, tier="quick" if s in QUICK else "thorough", where=R, shape=s, opts=FOPTS) for s in SHAPES],
    *[Ob(f"floats of a buffer, {s}", floats, 60, tier="quick" if s in QUICK else "thorough", where=8, shape=s, opts=FOPTS) for s in SHAPES],
    Ob("floats of a short buffer", floats, 60, where=7, shape="any", opts=FOPTS),
    *[Ob(f"text, {k} intervals, {a}..{b}", text, 60, tier="quick" if (k, a) != (2, 2) else "thorough", where=R, k=k, lo=a, hi=b, opts=OPTS) for k in (0, 1, 2) for a, b in ((0, 0), (0, 2), (1, 1), (2, 3)) if k or a == 0],
    *[Ob(f"text, large alphabet, {a}..{b}", text, 60, where=R, k=1, wide=True, lo=a, hi=b, opts=OPTS) for a, b in ((1, 1), (0, 2))],
    *[Ob(f"text of a buffer, {k} intervals, {a}..{b}", text, 60, where=4, k=k, lo=a, hi=b, opts=OPTS) for k in (0, 1, 2) for a, b in ((0, 2), (1, 1)) if k or a == 0],
    *[Ob(f"bytes, {a}..{b}", binary, 60, where=R, lo=a, hi=b, opts=OPTS) for a, b in ((0, 0), (0, 3), (1, 1), (2, 3))],
    *[Ob(f"bytes of a buffer, {a}..{b}", binary, 60, where=4, lo=a, hi=b, opts=OPTS) for a, b in ((0, 0), (0, 3), (1, 1), (2, 3))],
    *[Ob(f"forced {k}", forced, 40, kind=k, where=w, opts=OPTS if k != "float" else FOPTS) for k in ("boolean", "integer", "float", "string", "bytes") for w in (R,)],
    *[Ob(f"forced {k}, buffer", forced, 40, kind=k, where=w, opts=OPTS if k != "float" else FOPTS) for k in ("boolean", "integer", "float", "string", "bytes") for w in (1,)],
    *[Ob(f"forced integer, weights {n}", forced_weighted, 40, where=R, weights=w, lo=lo, hi=hi, opts=OPTS) for n, (w, lo, hi) in WEIGHTS.items()],
    *[Ob(f"constants for two requests, {k}", twice, 90, tier="thorough" if k == "float" else "quick", kind=k, opts=OPTS if k != "float" else FOPTS) for k in ("integer", "float", "bytes", "string")],
    *[Ob(f"sampler of {n}", sampler, 60, tier="quick" if n < 5 else "thorough", n=n, total=t, opts=OPTS) for n, t in ((1, 5), (2, 7), (3, 12), (4, 10), (5, 30))],
    *[Ob(f"number of elements, {a}..{b}", many_sizes, 60, where=R, lo=a, hi=b, opts=OPTS) for a, b in ((0, 0), (0, 2), (1, 2), (2, 2), (1, 3))],
    *[Ob(f"number of elements of a buffer, {a}..{b}", many_sizes, 60, where=3, lo=a, hi=b, opts=OPTS) for a, b in ((0, 2), (1, 2))],
]
