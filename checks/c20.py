"""C20: generated collections respect size bounds and uniqueness."""

from symx.api import Ob, need

from checks import draw

BOUNDS = (
    "min_size 0-2 and max_size absent or 0-3 (thorough: 0-3 / 0-5), integer elements of unbounded magnitude (or sampled from up to 4 "
    "arbitrary, possibly equal integers), all choice sequences of up to 9-11 (thorough: 16) choices; sets, uniqueness keys and "
    "dictionaries compare symbolic values"
)
OUTSIDE = "larger sizes, user-defined element types and dict classes"
ASSUMPTIONS = ["the primitive draws return any value within their requested constraints (decided by C06)"]
OPTS = {"unhashable": True, "symset": True, "symdict": True, "ints": "int"}


def sizes(env, big):
    lo = env.choose("min_size", 4 if big else 3)
    hi = env.choose("max_size", 7 if big else 5) - 1
    if hi < 0:
        hi = None
    else:
        env.assume(lo <= hi)
    return lo, hi


def distinct(env, xs):
    xs = list(xs)
    return env.And(*[env.Not(xs[i] == xs[j]) for i in range(len(xs)) for j in range(i)])


def is_int(env, v, lo, hi):
    return env.And(type(v) is int, lo <= v, v <= hi)


def member(env, v, xs):
    return env.Or(*[v == x for x in xs])


def check_size(env, n, lo, hi):
    env.check(n >= lo, "the collection is too small")
    if hi is not None:
        env.check(n <= hi, "the collection is too large")


def run(env, s, big, rejects, max_choices=None):
    o = draw.draw(env, s, max_choices=max_choices or (16 if big else 11))
    if o.kind != "value":
        env.check(o.kind == "overrun" or rejects, "drawing a collection without uniqueness was rejected")
        return None
    env.reach("value")
    return o


class Elements:
    """element strategies, with what they may produce"""

    def __init__(self, env):
        self.env = env
        self.st = need("hypothesis.strategies")
        self.fresh = 0

    def ints(self):
        env = self.env
        a, b = env.int("a"), env.int("b")
        env.assume(a <= b)
        return self.st.integers(a, b), lambda v: is_int(env, v, a, b)

    def wide(self):
        """too many for the elements to be enumerated"""
        env = self.env
        a, b = env.int("a"), env.int("b")
        env.assume(b - a > 255)
        return self.st.integers(a, b), lambda v: is_int(env, v, a, b)

    def small(self):
        env = self.env
        a, b = env.options("range", [(0, 2), (-1, 1), (5, 7), (-4, -3)])
        return self.st.integers(a, b), lambda v: is_int(env, v, a, b)

    def sampled(self, n=3):
        env = self.env
        xs = [env.int("x") for _ in range(n)]
        return self.st.sampled_from(xs), lambda v: member(env, v, xs)

    def repeated(self):
        """few distinct elements, each many times: most draws are rejected"""
        env = self.env
        x, y = env.int("x"), env.int("y")
        return self.st.sampled_from([x] * 5 + [y]), lambda v: env.Or(v == x, v == y)

    def const(self):
        calls = [0]

        def seven():
            calls[0] += 1
            self.env.check(calls[0] < 200, "generation never gives up although there are too few distinct elements")
            return 7

        return self.st.builds(seven), lambda v: v == 7

    def bools(self):
        return self.st.booleans(), lambda v: type(v) is bool

    def mapped(self, n=3):
        env = self.env
        s, ok = self.sampled(n)
        return s.map(lambda x: x // 2), lambda v: env.Or(ok(2 * v), ok(2 * v + 1))

    def sampled_filtered(self, n=3):
        env = self.env
        s, ok = self.sampled(n)
        return s.filter(lambda x: x > 0), lambda v: env.And(ok(v), v > 0)

    def filtered(self):
        env = self.env
        s, ok = self.wide()
        c = env.int("c")
        return s.filter(lambda x: x != c), lambda v: env.And(ok(v), env.Not(v == c))

    def nothing(self):
        return self.st.nothing(), lambda v: False

    def pairs(self):
        env = self.env
        (s, ok), (t, ok2) = self.sampled(2), self.wide()
        return self.st.tuples(s, t), lambda v: env.And(type(v) is tuple, len(v) == 2, ok(v[0]), ok2(v[1]))


def lists(env, elems, big=False, what="lists"):
    lo, hi = sizes(env, big)
    e, ok = getattr(Elements(env), elems)()
    s = draw.build(env, lambda: getattr(need("hypothesis.strategies"), what)(e, min_size=lo, max_size=hi))
    if s is None:
        env.check(elems == "nothing" and (lo > 0 or hi), "satisfiable sizes were rejected")
        return
    o = run(env, s, big, "filter" in elems)
    if o is None:
        return
    v = o.value
    if what == "iterables":
        v = list(v)
    env.check(type(v) is list, "not a list")
    check_size(env, len(v), lo, hi)
    env.check(env.And(*[ok(x) for x in v]), "an element which its strategy cannot produce")


KEYS = {
    "identity": lambda x: x,
    "half": lambda x: x // 2,
    "first": lambda t: t[0],
    "both": (lambda t: t[0], lambda t: t[1]),
    "id+half": (lambda x: x // 2, lambda x: x % 3),
}


def unique(env, elems, key, big=False):
    lo, hi = sizes(env, big)
    e, ok = getattr(Elements(env), elems)()
    kw = dict(unique=True) if key == "identity" else dict(unique_by=KEYS[key])
    s = draw.build(env, lambda: need("hypothesis.strategies").lists(e, min_size=lo, max_size=hi, **kw))
    if s is None:
        env.check(lo > 0 or hi and elems == "nothing", "satisfiable sizes were rejected")
        return
    o = run(env, s, big, True, max_choices=9 if elems in ("filtered", "wide", "repeated") and not big else None)
    if o is None:
        return
    v = o.value
    env.check(type(v) is list, "not a list")
    check_size(env, len(v), lo, hi)
    env.check(env.And(*[ok(x) for x in v]), "an element which its strategy cannot produce")
    ks = KEYS[key]
    for k in ks if isinstance(ks, tuple) else (ks,):
        env.check(distinct(env, [k(x) for x in v]), "two elements are equal under the uniqueness key")


def sets(env, what, elems, big=False):
    lo, hi = sizes(env, big)
    e, ok = getattr(Elements(env), elems)()
    s = draw.build(env, lambda: getattr(need("hypothesis.strategies"), what)(e, min_size=lo, max_size=hi))
    if s is None:
        env.check(lo > 0 or hi and elems == "nothing", "satisfiable sizes were rejected")
        return
    o = run(env, s, big, True)
    if o is None:
        return
    v = o.value
    if not env.symbolic:
        env.check(type(v) is {"sets": set, "frozensets": frozenset}[what], "wrong type of collection")
    check_size(env, len(v), lo, hi)
    env.check(env.And(*[ok(x) for x in v]), "an element which its strategy cannot produce")


def dictionaries(env, elems, big=False):
    lo, hi = sizes(env, big)
    E = Elements(env)
    e, ok = getattr(E, elems)()
    w, ok2 = E.ints()
    s = draw.build(env, lambda: need("hypothesis.strategies").dictionaries(e, w, min_size=lo, max_size=hi))
    if s is None:
        env.check(lo > 0 or hi and elems == "nothing", "satisfiable sizes were rejected")
        return
    o = run(env, s, big, True)
    if o is None:
        return
    v = o.value
    if not env.symbolic:
        env.check(type(v) is dict, "not a dict")
    check_size(env, len(v), lo, hi)
    for k, x in list(v.items()):
        env.check(ok(k), "a key which its strategy cannot produce")
        env.check(ok2(x), "a value which its strategy cannot produce")


def fixed_dicts(env, nfix, nopt):
    st = need("hypothesis.strategies")
    E = Elements(env)
    spec = {f"k{i}": E.ints() for i in range(nfix)}
    opt = {f"o{i}": E.ints() for i in range(nopt)}
    skip = env.choose("empty optional", 2) if nopt else 0
    if skip:
        opt["never"] = E.nothing()
    kw = dict(optional={k: s for k, (s, _) in opt.items()}) if nopt else {}
    s = st.fixed_dictionaries({k: s for k, (s, _) in spec.items()}, **kw)
    s.validate()
    o = run(env, s, True, False)
    if o is None:
        return
    v = o.value
    env.check(all(k in v for k in spec), "a required key is missing")
    for k in v:
        env.check(k in spec or k in opt, "an unknown key")
        env.check((spec.get(k) or opt[k])[1](v[k]), "a value which its strategy cannot produce")
    env.check([k for k in v if k in spec] == list(spec), "the required keys are out of order")


def tuples(env, n):
    st = need("hypothesis.strategies")
    E = Elements(env)
    es = [E.ints() for _ in range(n)]
    s = st.tuples(*[e for e, _ in es])
    s.validate()
    o = run(env, s, False, False)
    if o is None:
        return
    v = o.value
    env.check(type(v) is tuple and len(v) == n, "wrong shape of tuple")
    env.check(env.And(*[ok(x) for (_, ok), x in zip(es, v)]), "an element which its strategy cannot produce")


def every_size(env, what, elems="ints", big=False):
    """every size within the bounds can be drawn (when enough distinct elements exist)"""
    st = need("hypothesis.strategies")
    CD = need("hypothesis.internal.conjecture.data", "ConjectureData")
    lo, hi = sizes(env, big)
    n = lo + env.choose("n", (lo + 3 if hi is None else hi) - lo + 1)
    es = st.integers() if elems == "ints" else st.sampled_from(range(n + 2))
    if what == "dictionaries":
        s = st.dictionaries(es, st.none(), min_size=lo, max_size=hi)
    elif what == "unique":
        s = st.lists(es, min_size=lo, max_size=hi, unique=True)
    else:
        s = getattr(st, what)(es, min_size=lo, max_size=hi)

    class P(draw.provider_class(env)):
        count = 0

        def draw_boolean(self, p=0.5, **kw):
            v = self.count < n
            env.check(p > 0 if v else p < 1, "a size within the bounds cannot be drawn")
            return v

        def draw_integer(self, min_value=None, max_value=None, **kw):
            self.count += 1
            return self.count if elems == "ints" else 0

    d = CD(random=None, provider=P)
    with need("hypothesis.control", "BuildContext")(d, is_final=False):
        v = d.draw(s)
    env.reach("drawn")
    env.check(len(v) == n, "a size within the bounds cannot be drawn")


def obs(tier):
    big = tier == "thorough"
    kw = dict(opts=OPTS, tier=tier, big=big)
    t = " deep" if big else ""
    for e in ("ints", "sampled", "filtered", "nothing"):
        yield Ob(f"lists {e}{t}", lists, elems=e, **kw)
    yield Ob(f"iterables ints{t}", lists, elems="ints", what="iterables", **kw)
    for e, k in (
        ("wide", "identity"), ("wide", "half"), ("small", "identity"), ("small", "half"), ("filtered", "identity"), ("sampled", "identity"), ("sampled", "half"),
        ("mapped", "identity"), ("sampled_filtered", "identity"), ("pairs", "first"), ("pairs", "both"), ("nothing", "identity"), ("sampled", "id+half"), ("repeated", "identity"), ("repeated", "id+half"),
        ("const", "identity"), ("bools", "identity"), ("small", "id+half"),
    ):
        yield Ob(f"unique {e} by {k}{t}", unique, elems=e, key=k, **kw)
    for f in ("sets", "frozensets"):
        for e in ("wide", "small", "sampled", "mapped", "repeated", "const"):
            yield Ob(f"{f} {e}{t}", sets, what=f, elems=e, **kw)
    for e in ("wide", "small", "sampled"):
        yield Ob(f"dictionaries {e}{t}", dictionaries, elems=e, **kw)
    for f in ("lists", "unique", "sets", "frozensets", "dictionaries"):
        for e in ("ints", "sampled"):
            yield Ob(f"every size {f} {e}{t}", every_size, what=f, elems=e, **kw)


OBLIGATIONS = [
    *obs("quick"),
    *obs("thorough"),
    *[Ob(f"fixed_dictionaries {a}+{b}", fixed_dicts, nfix=a, nopt=b, opts={"unhashable": True, "ints": "int"}) for a, b in ((0, 0), (2, 0), (1, 2), (2, 3))],
    *[Ob(f"tuples {n}", tuples, n=n, opts=OPTS) for n in range(4)],
]
