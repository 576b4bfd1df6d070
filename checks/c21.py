"""C21: strategy combinators only produce values their definition permits."""

from symx.api import Ob, need

from checks import draw

BOUNDS = (
    "one_of over up to 4 branches (empty, nested, mapped, filtered ones included), sampled_from up to 5 elements, filters and maps up to "
    "3 deep with every predicate an arbitrary oracle, permutations of up to 4 (thorough: 5) elements, recursive max_leaves 1-4 "
    "(thorough: 1-6), all choice sequences of up to 10-14 choices"
)
OUTSIDE = "sampled_from with more than 10 000 elements under a filter, larger nestings, user code with side effects"
ASSUMPTIONS = ["the primitive draws return any value within their requested constraints (decided by C06)"]
OPTS = {"unhashable": True, "ints": "int", "symset": True}


def S():
    return need("hypothesis.strategies")


class Tagged:
    """a value that remembers what was done to it"""

    def __init__(self, branch, v, trail=()):
        self.branch, self.v, self.trail = branch, v, tuple(trail)

    def then(self, what):
        return Tagged(self.branch, self.v, (*self.trail, what))


def tag(k):
    return lambda v: Tagged(k, v)


class Oracle:
    """an arbitrary deterministic predicate: one symbolic bit per distinct value"""

    def __init__(self, env, name="p", max_calls=14):
        self.env, self.name, self.max_calls = env, name, max_calls
        self.seen = []

    def __call__(self, v):
        for w, r in self.seen:
            if w is v:
                return r
        if len(self.seen) >= self.max_calls:
            self.env.cut("too many different values for the predicate")
        r = self.env.bool(self.name)
        self.seen.append((v, r))
        return r

    def holds(self, v):
        return any(w is v and r for w, r in self.seen)


def finish(env, s, n=10):
    s.validate()
    o = draw.draw(env, s, max_choices=n)
    return o if o.kind == "value" else None


# -- one_of -----------------------------------------------------------------

KINDS = ("int", "empty", "sampled", "nested", "mapped-empty", "same")


def branch(env, i, kind):
    """-> strategy, the tags it may produce"""
    st = S()
    if kind == "int":
        return st.integers(0, 9).map(tag(i)), {i}
    if kind == "empty":
        return st.nothing(), set()
    if kind == "sampled":
        return st.sampled_from([Tagged(i, 0), Tagged(i, 1)]), {i}
    if kind == "nested":
        return st.one_of(st.just(Tagged((i, "a"), 0)), st.nothing(), st.just(Tagged((i, "b"), 0))), {(i, "a"), (i, "b")}
    if kind == "mapped-empty":
        return st.nothing().map(tag(i)), set()
    raise KeyError(kind)


def pick(env, n):
    st = S()
    ss, tags = [], set()
    for i in range(n):
        k = env.options(f"branch {i}", KINDS if i else KINDS[:-1])
        if k == "same":
            ss.append(ss[0])
        else:
            s, t = branch(env, i, k)
            ss.append(s)
            tags |= t
    how = env.choose("how", 3)
    if how == 0 or n == 0:
        s = st.one_of(*ss)
    elif how == 1:
        s = st.one_of(ss)
    else:
        s = ss[0]
        for x in ss[1:]:
            s = s | x
    return s, tags


def one_of(env, n):
    s, tags = pick(env, n)
    env.check(s.is_empty == (not tags), "emptiness of a choice between strategies")
    o = finish(env, s)
    if o is None:
        env.check(not tags, "a choice between strategies was rejected although one can produce values")
        return
    env.reach("value")
    env.check(isinstance(o.value, Tagged) and o.value.branch in tags, "value of none of the branches")


def one_of_reaches(env, n):
    """each non-empty branch can be drawn"""
    s, tags = pick(env, n)
    if not tags:
        return
    got = []
    CD, BC = need("hypothesis.internal.conjecture.data", "ConjectureData"), need("hypothesis.control", "BuildContext")

    def run(i):
        class P(draw.provider_class(env)):
            first = True

            def draw_integer(self, min_value=None, max_value=None, **kw):
                if self.first:
                    self.first = False
                    if i > max_value:
                        env.reach("all branches")
                        return max_value
                    return i
                return min_value

        d = CD(random=None, provider=P)
        with BC(d, is_final=False):
            return d.draw(s).branch

    for i in range(len(tags)):
        got.append(run(i))
    env.check(set(got) == tags, "a branch can never be chosen")


# -- sampling ---------------------------------------------------------------


def sampled(env, n, filters, maps):
    st = S()
    els = [Tagged(0, i) for i in range(n)]
    s = st.sampled_from(els)
    ps, trail = [], []
    for k in range(filters + maps):
        if k % 2 == 0 and len(ps) < filters or len(trail) >= maps:
            p = Oracle(env)
            ps.append((p, len(trail)))
            s = s.filter(p)
        else:
            m = f"m{k}"
            trail.append(m)
            s = s.map(lambda x, m=m: x.then(m))
    o = finish(env, s)
    if o is None:
        env.check(bool(filters), "an unfiltered sample was rejected")
        return
    env.reach("value")
    v = o.value
    env.check(v.trail == tuple(trail), "the functions were not applied in order, once each")
    env.check(any(v.v == e.v for e in els), "not one of the elements")
    if not maps:
        env.check(any(v is e for e in els), "not one of the elements")
    for p, depth in ps:
        # the predicate was asked about this element (at this stage) and held
        env.check(any(r and w.v == v.v and w.trail == v.trail[:depth] for w, r in p.seen), "a filter does not hold for the sampled value")


def sampled_reaches(env, n):
    st = S()
    els = [Tagged(0, i) for i in range(n)]
    i = env.choose("i", n)
    CD, BC = need("hypothesis.internal.conjecture.data", "ConjectureData"), need("hypothesis.control", "BuildContext")

    class P(draw.provider_class(env)):
        def draw_integer(self, min_value=None, max_value=None, **kw):
            env.check(min_value <= i <= max_value, "an element can never be sampled")
            return i

    s = st.sampled_from(els)
    s.validate()
    if n == 1:
        return
    d = CD(random=None, provider=P)
    with BC(d, is_final=False):
        env.check(d.draw(s) is els[i], "an element can never be sampled")


def sampled_range(env):
    """ranges of any extent, and ordered dictionaries/tuples"""
    st = S()
    a, n, step = env.options("range", [(0, 3, 1), (5, 4, -2), (10**30, 3, 7), (-1, 1, 1)])
    r = range(a, a + n * step, step)
    kind = env.choose("kind", 3)
    src = (r, tuple(r), dict.fromkeys(r).keys())[kind]
    if kind == 2:
        src = list(src)
    o = finish(env, st.sampled_from(src))
    env.check(o is not None and any(o.value == x for x in r), "not one of the elements")


# -- filter / map / flatmap -------------------------------------------------


def bases(env, which):
    st = S()
    if which == "ints":
        return st.integers(0, 9).map(tag(0))
    if which == "one_of":
        return st.one_of(st.integers(0, 9).map(tag(0)), st.sampled_from([Tagged(1, 5), Tagged(1, 6)]))
    if which == "flatmap":
        return st.integers(0, 3).flatmap(lambda n: st.integers(n, n + 2).map(tag(n)))
    if which == "deferred":
        return st.deferred(lambda: st.integers(0, 9).map(tag(0)))
    if which == "builds":
        return st.builds(Tagged, st.just(0), st.integers(0, 9))
    if which == "composite":
        return st.composite(lambda d: Tagged(d(st.integers(0, 3)), d(st.integers(0, 9))))()
    if which == "shared":
        return st.shared(st.integers(0, 9).map(tag(0)), key="k")
    if which == "pre-filtered":
        return st.integers(0, 9).filter(lambda x: x != 4).map(tag(0))
    raise KeyError(which)


def filtered(env, which, nf, validated=False):
    """chains of filters, with the maps between them"""
    s = bases(env, which)
    ps = []
    if validated:
        s.validate()
    for k in range(nf):
        p = Oracle(env, f"p{k}")
        ps.append(p)
        s = s.filter(p)
    o = finish(env, s, 9)
    if o is None:
        return
    env.reach("value")
    env.check(isinstance(o.value, Tagged), "not a value of the underlying strategy")
    for p in ps:
        env.check(p.holds(o.value), "a filter does not hold for the drawn value")
    if which == "pre-filtered":
        env.check(env.Not(o.value.v == 4), "a filter below a map does not hold")


def interleaved(env, which):
    """filter, map, filter, map: each predicate sees what its place in the chain says"""
    p, q = Oracle(env, "p"), Oracle(env, "q")
    s = bases(env, which).filter(p).map(lambda x: x.then("m")).filter(q).map(lambda x: x.then("n"))
    o = finish(env, s, 12)
    if o is None:
        return
    env.reach("value")
    v = o.value
    env.check(v.trail == ("m", "n"), "the functions were not applied in order, once each")
    env.check(any(r and w.v is v.v and w.trail == () for w, r in p.seen), "the first filter does not hold")
    env.check(any(r and w.v is v.v and w.trail == ("m",) for w, r in q.seen), "the second filter does not hold")


def map_assume(env):
    """a mapped function may reject its argument"""
    st = S()
    assume = need("hypothesis", "assume")
    p = Oracle(env)
    done = []

    def f(x):
        assume(p(x))
        r = Tagged(0, x)
        done.append(r)
        return r

    s = st.integers(0, 9).map(lambda x: [x]).map(f)
    o = finish(env, s)
    if o is None:
        env.check(not done, "a value was produced but the test case was rejected")
        return
    env.reach("value")
    env.check(o.value is done[-1], "not the value the function returned")


def flatmap(env, depth):
    st = S()

    def expand(n):
        return st.integers(n, n + 2).map(lambda v: (*((n,) if type(n) is not tuple else n), v))

    a, b = env.int("a"), env.int("b")
    env.assume(a <= b)
    s = st.integers(a, b).flatmap(expand)
    if depth == 2:
        s = s.flatmap(lambda t: st.integers(t[1], t[1] + 2).map(lambda v: (*t, v)))
    o = finish(env, s)
    env.check(o is not None, "the draw was rejected")
    v = o.value
    env.check(env.And(a <= v[0], v[0] <= b), "the first value is not one of the base strategy")
    for x, y in zip(v, v[1:]):
        env.check(env.And(x <= y, y <= x + 2), "value of a strategy that was not built from the drawn value")
    env.check(len(v) == depth + 1, "wrong shape")


def builds(env, kw):
    st = S()

    def f(x, y, *rest, z=None):
        return (x, y, rest, z)

    es = [st.integers(3 * i, 3 * i + 2) for i in range(4)]
    s = [lambda: st.builds(f, es[0], es[1]), lambda: st.builds(f, es[0], es[1], es[2], z=es[3]), lambda: st.builds(f, es[0], y=es[1], z=es[3])][kw]()
    o = finish(env, s)
    x, y, rest, z = o.value
    env.check(env.And(0 <= x, x <= 2, 3 <= y, y <= 5), "arguments in the wrong place")
    env.check(len(rest) == (1 if kw == 1 else 0) and (z is None) == (kw == 0), "arguments in the wrong place")
    if rest:
        env.check(env.And(6 <= rest[0], rest[0] <= 8), "arguments in the wrong place")
    if z is not None:
        env.check(env.And(9 <= z, z <= 11), "arguments in the wrong place")


# -- permutations, shared, recursive ----------------------------------------


def permutations(env, n):
    """one element occurs twice when n > 2"""
    els = [Tagged(0, i) for i in range(n)]
    src = list(els)
    s = S().permutations(src)
    s.validate()
    o1, o2 = draw.draw(env, s), draw.draw(env, s)
    for o in (o1, o2):
        env.check(o.kind == "value", "drawing a permutation failed")
        v = o.value
        env.check(type(v) is list and len(v) == n and all(sum(x is e for x in v) == 1 for e in els), "not a rearrangement")
    env.check(all(x is y for x, y in zip(src, els)) and len(src) == n, "the original sequence was changed")
    same = all(x is y for x, y in zip(o1.value, o2.value))
    a, b = [[c for k, c in o.data.provider.log] for o in (o1, o2)]
    # different choices give different arrangements, and there are n! of them
    env.check(len(a) == len(b), "number of choices")
    if same:
        env.check(env.And(*[x == y for x, y in zip(a, b)]), "two choice sequences give the same arrangement")


KEYS = (None, "k", "l", "", 0, 1, (), ("a",), False)


def shared(env):
    st = S()
    k1, k2 = env.options("k1", KEYS), env.options("k2", KEYS)
    mk = lambda k, t: st.shared(st.integers(0, 9).map(tag(t)), key=k) if k is not None else st.shared(st.integers(0, 9).map(tag(t)))
    a, b = mk(k1, "a"), mk(k2, "b")
    how = env.choose("how", 3)
    s = [lambda: st.tuples(a, b, a, b), lambda: st.tuples(a, st.integers(0, 3).flatmap(lambda _: b), st.lists(a, min_size=1, max_size=1).map(lambda l: l[0]), b), lambda: st.tuples(a, b.map(lambda x: x), a, b)][how]()
    o = finish(env, s)
    env.check(o is not None, "the draw was rejected")
    w, x, y, z = o.value
    env.check(w is y and x is z, "two draws from the same shared strategy differ")
    if k1 is not None and k2 is not None and k1 == k2:
        env.check(w is x, "two shared strategies with the same key differ")
    else:
        env.check(w.branch == "a" and x.branch == "b", "shared strategies with different keys were mixed up")


def shared_cases(env):
    """a later test case draws afresh"""
    st = S()
    s = st.shared(st.integers(0, 9).map(tag(0)), key="k")
    s.validate()
    a, b = draw.draw(env, s), draw.draw(env, s)
    env.check(a.value is not b.value and len(b.data.provider.log) == 1, "a shared value leaked into the next test case")


def leaves(v):
    return 1 if isinstance(v, Tagged) else sum(leaves(x) for x in v)


def recursive(env, shape, leaf, n=10):
    st = S()
    base = st.integers(0, 9).map(tag(0)) if leaf == "int" else st.just(Tagged(0, 0)) if leaf == "just" else st.sampled_from([Tagged(0, 0), Tagged(0, 1)])
    extend = {
        "pair": lambda c: st.tuples(c, c),
        "list": lambda c: st.lists(c, max_size=2),
        "mixed": lambda c: st.lists(c, min_size=1, max_size=2) | st.tuples(c),
        "ignore": lambda c: st.tuples(base, base),
    }[shape]
    m = 1 + env.choose("max_leaves", 6 if n > 10 else 4)
    o = finish(env, st.recursive(base, extend, max_leaves=m), n)
    if o is None:
        return
    env.reach("value")
    if shape != "ignore":
        env.check(leaves(o.value) <= m, "more leaves than max_leaves")

    def ok(v, depth):
        if isinstance(v, Tagged):
            return v.branch == 0
        if shape in ("pair", "ignore"):
            return type(v) is tuple and len(v) == 2 and all(ok(x, depth + 1) for x in v)
        if type(v) is tuple:
            return shape == "mixed" and len(v) == 1 and ok(v[0], depth + 1)
        return type(v) is list and len(v) <= 2 and (shape == "list" or len(v) >= 1) and all(ok(x, depth + 1) for x in v)

    env.check(ok(o.value, 0), "a value the definition does not permit")


def deferred_recursion(env):
    st = S()
    t = st.deferred(lambda: st.integers(0, 9).map(tag(0)) | st.tuples(t, t))
    o = finish(env, t, 8)
    if o is None:
        return

    def ok(v):
        return isinstance(v, Tagged) or type(v) is tuple and len(v) == 2 and all(map(ok, v))

    env.check(ok(o.value), "a value the definition does not permit")


def emptiness(env):
    """is_empty agrees with what can be drawn, for nested definitions"""
    st = S()
    e = env.choose("e", 2)
    inner = st.nothing() if e else st.integers(0, 9)
    k, (s, empty) = env.choose("k", 12), (None, None)
    r = st.deferred(lambda: st.tuples(inner, r))
    r2 = st.deferred(lambda: st.tuples(r2, st.just(1)) | inner)
    s, empty = [
        lambda: (inner, e), lambda: (inner.map(str), e), lambda: (inner.filter(bool), e), lambda: (st.tuples(st.just(1), inner), e),
        lambda: (inner.flatmap(st.just), e), lambda: (st.lists(inner, max_size=None), 0), lambda: (st.lists(inner | st.nothing(), min_size=1) if not e else st.nothing(), e),
        lambda: (st.one_of(st.nothing(), inner), e), lambda: (st.fixed_dictionaries({"a": inner}), e), lambda: (st.builds(str, inner), e),
        lambda: (r, 1), lambda: (r2, e),
    ][k]()
    # (it need not notice every empty strategy)
    env.check(not s.is_empty or empty, "a strategy which can produce values is said to be empty")


OBLIGATIONS = [
    *[Ob(f"one_of {n}", one_of, n=n, opts=OPTS) for n in range(4)],
    Ob("one_of 4", one_of, n=4, opts=OPTS, tier="thorough"),
    *[Ob(f"one_of reaches {n}", one_of_reaches, n=n, opts=OPTS) for n in (1, 2, 3)],
    *[Ob(f"sampled_from {n} filters={f} maps={m}", sampled, n=n, filters=f, maps=m, opts=OPTS)
      for n, f, m in ((1, 0, 0), (1, 1, 0), (2, 0, 2), (2, 1, 1), (3, 1, 0), (3, 2, 1), (5, 1, 0))],
    Ob("sampled_from 6 filters=2", sampled, n=6, filters=2, maps=0, opts=OPTS, tier="thorough"),
    *[Ob(f"sampled_from reaches {n}", sampled_reaches, n=n, opts=OPTS) for n in (1, 2, 5)],
    Ob("sampled_from sequences", sampled_range, opts=OPTS),
    *[Ob(f"filter {w} x{n}", filtered, which=w, nf=n, opts=OPTS)
      for w in ("ints", "one_of", "flatmap", "deferred", "builds", "composite", "shared", "pre-filtered") for n in (1, 2)],
    Ob("filter ints x3", filtered, which="ints", nf=3, opts=OPTS),
    Ob("filter one_of x2 validated", filtered, which="one_of", nf=2, validated=True, opts=OPTS),
    *[Ob(f"filter and map {w}", interleaved, which=w, opts=OPTS) for w in ("ints", "one_of", "builds")],
    Ob("map with rejection", map_assume, opts=OPTS),
    *[Ob(f"flatmap {d}", flatmap, depth=d, opts=OPTS) for d in (1, 2)],
    *[Ob(f"builds {k}", builds, kw=k, opts=OPTS) for k in range(3)],
    *[Ob(f"permutations {n}", permutations, n=n, opts=OPTS) for n in range(5)],
    Ob("permutations 5", permutations, n=5, opts=OPTS, tier="thorough"),
    Ob("shared keys", shared, opts=OPTS),
    Ob("shared across test cases", shared_cases, opts=OPTS),
    *[Ob(f"recursive {s} of {b}", recursive, shape=s, leaf=b, opts=OPTS) for s, b in (("pair", "int"), ("list", "int"), ("mixed", "sampled"), ("pair", "just"), ("ignore", "int"))],
    *[Ob(f"recursive {s} of {b} deep", recursive, shape=s, leaf=b, n=16, opts=OPTS, tier="thorough") for s, b in (("pair", "int"), ("list", "int"), ("mixed", "sampled"))],
    Ob("deferred recursion", deferred_recursion, opts=OPTS),
    Ob("emptiness", emptiness, opts=OPTS),
]
