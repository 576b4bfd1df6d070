"""C26: generated random-number objects honour the range of every method."""

import math

from symx.api import Ob, need

from checks import draw

BOUNDS = (
    "every method of the generated object with all integer arguments up to 2**40 in magnitude and all float arguments (populations of up to 3, thorough 4, elements); histories "
    "of up to three calls of one or two methods with arbitrary arguments, in which saved states and seeds are restored in between, and copies of the object"
)
OUTSIDE = "use_true_random=True (the standard library's own generator), the effect of weights, longer histories"
ASSUMPTIONS = ["the primitive draws return any value within their requested constraints (decided by C06)"]
OPTS = {"unhashable": True, "symset": True, "symdict": True, "ints": "int"}
BIG = 2**40


class Rejected(Exception):
    pass


class M:
    """one call of each method: the arguments, and whether a result is in range"""

    def __init__(self, env, big=False):
        self.env = env
        self.big = big
        self.n = 4 if big else 3

    def i(self, name, lo=-BIG, hi=BIG):
        return self.env.int(name, lo, hi)

    def f(self, name):
        x = self.env.float(name)
        self.env.assume(self.env.Not(self.env.Or(self.env.is_nan(x), self.env.is_inf(x))))
        return x

    def pop(self, name="x", lo=1):
        return [self.env.int(name) for _ in range(lo + self.env.choose("len", self.n - lo + 1))]

    def is_int(self, v, lo, hi):
        return self.env.And(type(v) is int, lo <= v, v <= hi)

    def is_float(self, v, lo, hi):
        return self.env.And(type(v) is float, lo <= v, v <= hi)

    def member(self, v, xs):
        return self.env.Or(*[v == x for x in xs])

    def randint(self):
        a, b = self.i("a"), self.i("b")
        self.env.assume(a <= b)
        return (a, b), {}, lambda v: self.is_int(v, a, b)

    def randrange1(self):
        n = self.i("n", 1)
        return (n,), {}, lambda v: self.is_int(v, 0, n - 1)

    def randrange2(self):
        a, b = self.i("a"), self.i("b")
        self.env.assume(a < b)
        return (a, b), {}, lambda v: self.is_int(v, a, b - 1)

    def randrange3(self):
        env = self.env
        a, b = self.i("a", -1000, 1000), self.i("b", -1000, 1000)
        c = env.options("step", [1, 2, 3, 7, -1, -2, -5])
        env.assume(a < b if c > 0 else a > b)
        return (a, b, c), {}, lambda v: env.And(type(v) is int, (v - a) % c == 0, (env.And(a <= v, v < b) if c > 0 else env.And(b < v, v <= a)))

    def getrandbits(self):
        k = self.env.choose("k", 6)
        return (k,), {}, lambda v: self.is_int(v, 0, 2**k - 1)

    def randbelow(self):
        n = self.i("n", 1)
        return (n,), {}, lambda v: self.is_int(v, 0, n - 1)

    def binomialvariate(self):
        n = self.i("n", 0)
        return (n, 0.5), {}, lambda v: self.is_int(v, 0, n)

    def random(self):
        return (), {}, lambda v: self.env.And(type(v) is float, 0.0 <= v, v < 1.0)

    def uniform(self):
        env = self.env
        a, b = self.f("a"), self.f("b")
        return (a, b), {}, lambda v: env.Or(self.is_float(v, a, b), self.is_float(v, b, a))

    def triangular(self):
        env = self.env
        a, b = self.f("low"), self.f("high")
        return (a, b), {}, lambda v: env.Or(self.is_float(v, a, b), self.is_float(v, b, a))

    def triangular3(self):
        env = self.env
        a, b, c = self.f("low"), self.f("high"), self.f("mode")
        env.assume(env.Or(env.And(a <= c, c <= b), env.And(b <= c, c <= a)))
        return (a, b, c), {}, lambda v: env.Or(self.is_float(v, a, b), self.is_float(v, b, a))

    def betavariate(self):
        return (1.0, self.env.options("beta", [1.0, 2.0])), {}, lambda v: self.is_float(v, 0.0, 1.0)

    def vonmisesvariate(self):
        return (self.env.options("mu", [0.0, 1.0]), 1.0), {}, lambda v: self.is_float(v, 0.0, 2 * math.pi)

    def expovariate(self):
        env = self.env
        x = self.f("lambd")
        env.assume(env.Not(x == 0.0))
        return (x,), {}, lambda v: env.And(type(v) is float, env.Or(env.is_nan(v), env.And(x > 0.0, v >= 0.0), env.And(x < 0.0, v <= 0.0)))

    def paretovariate(self):
        return (self.env.options("alpha", [1.0, 2.0]),), {}, lambda v: self.env.And(type(v) is float, self.env.Or(self.env.is_nan(v), v >= 0.0))

    def lognormvariate(self):
        return (self.env.options("mu", [0.0, 1.0]), 1.0), {}, lambda v: self.env.And(type(v) is float, self.env.Or(self.env.is_nan(v), v >= 0.0))

    def weibullvariate(self):
        return (self.env.options("alpha", [1.0, 2.0]), 1.0), {}, lambda v: self.is_float(v, 0.0, 1.7976931348623157e308)

    def gammavariate(self):
        return (self.env.options("alpha", [1.0, 2.0]), 1.0), {}, lambda v: self.is_float(v, 0.0, 1.7976931348623157e308)

    def gauss(self):
        return (self.env.options("mu", [0.0, 1.0]), 1.0), {}, lambda v: self.env.And(type(v) is float, self.env.Not(self.env.is_nan(v)))

    normalvariate = gauss

    def choice(self):
        xs = self.pop()
        return (xs,), {}, lambda v: self.member(v, xs)

    def choices(self):
        xs = self.pop()
        k = self.env.choose("k", 3)
        return (xs,), {"k": k}, lambda v: self.env.And(type(v) is list, len(v) == k, *[self.member(x, xs) for x in v])

    def occurrences(self, v, xs):
        """v is some members of xs, each taken at most as often as it occurs"""
        env = self.env
        count = lambda y, zs: sum([env.ite(y == z, 1, 0) for z in zs])  # noqa: E731
        return env.And(*[count(y, v) <= count(y, xs) for y in v])

    def sample(self):
        xs = self.pop(lo=0)
        k = self.env.choose("k", len(xs) + 1)
        return (xs, k), {}, lambda v: self.env.And(type(v) is list, len(v) == k, self.occurrences(v, xs))

    def sample_counts(self):
        env = self.env
        xs = self.pop() if self.big else [env.int("x") for _ in range(2)]
        counts = [env.choose("count", 3) for _ in xs]
        k = env.choose("k", min(sum(counts), 4 if self.big else 2) + 1)
        full = [x for x, n in zip(xs, counts) for _ in range(n)]
        return (xs, k), {"counts": counts}, lambda v: env.And(type(v) is list, len(v) == k, self.occurrences(v, full))

    def shuffle(self):
        xs = self.pop(lo=0)
        before = list(xs)
        return (xs,), {}, lambda v: self.env.And(v is None, len(xs) == len(before), self.occurrences(xs, before))

    def randbytes(self):
        n = self.env.choose("n", 4)
        return (n,), {}, lambda v: self.env.And(type(v) is bytes, len(v) == n)


NAMES = {"randrange1": "randrange", "randrange2": "randrange", "randrange3": "randrange", "triangular3": "triangular", "randbelow": "_randbelow", "sample_counts": "sample"}


def call(env, r, m, how):
    args, kw, ok = getattr(m, how)()
    f = getattr(r, NAMES.get(how, how))
    args0 = list(args[0]) if args and type(args[0]) is list else None
    v = f(*args, **kw)
    env.check(ok(v), f"{NAMES.get(how, how)}() returned a value out of range")
    if how == "shuffle":
        v = list(args[0])
    env.reach(how)
    return args, kw, v, args0


def with_random(env, body):
    """run the body in a test case that has drawn a generated Random"""
    st = need("hypothesis.strategies")
    StopTest, Unsat = need("hypothesis.errors", "StopTest", "UnsatisfiedAssumption")
    BC = need("hypothesis.control", "BuildContext")
    d = draw.data(env, max_choices=24)
    try:
        with BC(d, is_final=False):
            body(d.draw(st.randoms()))
    except StopTest:
        env.check(d.status.name == "OVERRUN", "a call rejected the test case")
        env.reach("overrun")


def one(env, how, big=False):
    def body(r):
        call(env, r, M(env, big), how)

    with_random(env, body)


def again(env, how, via="state"):
    """the same state and arguments give the same result, and other arguments one in their range"""

    def body(r):
        m = M(env)
        m.n = 2
        if via == "seed":
            x, y = env.int("seed", 0, 2), env.int("seed", 0, 2)
            if env.symbolic:
                x, y = env.concretize(x), env.concretize(y)
            r.seed(x)
        elif via == "state":
            s = r.getstate()
        elif via == "copy":
            q = r.__copy__()
        args, kw, v, args0 = call(env, r, m, how)
        if via == "seed":
            r.seed(y)
            q = r
        elif via == "state":
            r.setstate(s)
            q = r
        if env.bool("other arguments"):
            call(env, q, m, how)
        else:
            args = list(args)
            if args0 is not None:
                args[0] = list(args0)
            w = getattr(q, NAMES.get(how, how))(*args, **kw)
            if how == "shuffle":
                w = args[0]
            if via != "seed" or x == y:
                env.check(env.same(v, w), "the same call in the same state gave another result")
            env.reach("repeated")

    with_random(env, body)


def sequence(env, a, b):
    """states reached by different calls are different states"""

    def body(r):
        m = M(env)
        m.n = 2
        s = r.getstate()
        call(env, r, m, a)
        t = r.getstate()
        env.check(env.Not(t == s), "a call does not change the state")
        args, kw, v, args0 = call(env, r, m, b)
        r.setstate(s)
        call(env, r, m, b)
        r.setstate(t)
        args = list(args)
        if args0 is not None:
            args[0] = list(args0)
        w = getattr(r, NAMES.get(b, b))(*args, **kw)
        env.check(env.same(v, args[0] if b == "shuffle" else w), "the same call in the same state gave another result")
        env.reach("sequence")

    with_random(env, body)


ALL = [
    "randint", "randrange1", "randrange2", "randrange3", "getrandbits", "randbelow", "binomialvariate", "random", "uniform", "triangular", "triangular3", "betavariate",
    "vonmisesvariate", "expovariate", "paretovariate", "lognormvariate", "weibullvariate", "gammavariate", "gauss", "normalvariate", "choice", "choices", "sample",
    "sample_counts", "shuffle", "randbytes",
]  # fmt: skip
FLOATY = ("uniform", "triangular", "triangular3", "expovariate")


def opts(how):
    if how in FLOATY + ("random", "betavariate", "vonmisesvariate", "paretovariate", "lognormvariate", "weibullvariate", "gammavariate", "gauss", "normalvariate"):
        return {k: v for k, v in OPTS.items() if k != "ints"}
    return OPTS


OBLIGATIONS = [
    *[Ob(f"{h}", one, 40, how=h, opts=opts(h)) for h in ALL],
    *[Ob(f"{h} larger", one, 60, tier="thorough", how=h, big=True, opts=opts(h)) for h in ("choice", "choices", "sample", "sample_counts", "shuffle")],
    *[Ob(f"{h} again", again, 60, tier="thorough" if h == "triangular3" else "quick", how=h, opts=opts(h)) for h in ALL],
    *[Ob(f"{h} again by seed", again, 60, tier="quick" if h in ("randint", "shuffle", "random") else "thorough", how=h, via="seed", opts=opts(h)) for h in ALL],
    *[Ob(f"{h} again in a copy", again, 60, tier="quick" if h in ("randint", "sample") else "thorough", how=h, via="copy", opts=opts(h)) for h in ALL],
    *[Ob(f"{a} then {b}", sequence, 60, a=a, b=b, opts=OPTS) for a, b in (("randint", "randint"), ("randint", "choice"), ("choice", "randrange2"), ("shuffle", "randbelow"))],
]
