"""C09: shrinking a single value keeps the failure and never makes it worse."""

import math

from symx.api import Ob, need

BOUNDS = (
    "arbitrary predicates (the answer for every value tried is an independent symbolic bit) that accept at most 2 (thorough 3) of the values tried besides the start; integers below 2**64 for threshold predicates (any threshold) and below 2**12 "
    "for arbitrary ones, sequences of up to 4 integers to order, bytes of up to 3 elements, text of up to 2 characters over five alphabets, 14 floats; search helpers with up to 14 answers; pass-choice trees of up to 3 x 3 x 2 with any conditions"
)
OUTSIDE = "larger values, predicates that accept more of the values tried, starting floats other than those listed"
ASSUMPTIONS = ["the predicate is deterministic and only satisfied by values of the permitted size, as in its only use (decided by C10)"]
S = "hypothesis.internal.conjecture.shrinking"
J = "hypothesis.internal.conjecture.junkdrawer"
OPTS = {"symset": True, "symdict": True, "unhashable": True, "ints": "int"}
BV = {"symset": True, "symdict": True, "unhashable": True}


class Predicate:
    """any predicate: it answers what it likes, and the same for the same value"""

    def __init__(self, env, initial, accepts, allowed=None, limit=60, consistent=True):
        self.env = env
        self.initial = initial
        self.log = []
        self.left = accepts
        self.limit = limit
        self.allowed = allowed
        self.consistent = consistent

    def __call__(self, value):
        env = self.env
        if self.consistent:
            for v, a in self.log:
                if env.same(v, value):
                    return a
        if len(self.log) >= self.limit:
            env.cut("more values tried than the bound")
        if self.allowed is not None and not self.allowed(value):
            a = False
        else:
            a = bool(env.bool("accept")) if self.left else False
        self.left -= a
        self.log.append((value, a))
        return a

    def verdict(self, result, better):
        env = self.env
        env.check(env.Or(env.same(result, self.initial), *[env.same(result, v) for v, a in self.log if a]), "the result was not tried, or does not satisfy the predicate")
        env.check(env.Or(env.same(result, self.initial), better(result, self.initial)), "the result is more complex than the start")
        best = self.initial
        for v, a in self.log:
            if a:
                env.check(better(v, best), "a value was accepted that is not simpler than the one before")
                best = v
        env.check(env.same(result, best), "the result is not the simplest value that was accepted")
        env.reach(f"{len([v for v, a in self.log if a])} accepted")


def integer(env, top, accepts, full=False):
    Integer = need(S + ".integer", "Integer")
    n = env.int("start", 0, top)
    p = Predicate(env, n, accepts, lambda v: True)

    def pred(v):
        env.check(v >= 0, "a negative number was tried")
        return p(v)

    p.verdict(Integer.shrink(n, pred, full=full), lambda a, b: a < b)


def threshold(env, top, full):
    Integer = need(S + ".integer", "Integer")
    n = env.int("start", 0, top)
    t = env.int("threshold", 0, top)
    env.assume(t <= n)
    r = Integer.shrink(n, lambda v: bool(v >= t), full=full)
    env.check(r == t, "shrinking to a threshold stopped above it, or went below")
    env.reach("threshold")


def guaranteed(env, top):
    """0, 1, start - 1 and start - 2 are tried"""
    Integer = need(S + ".integer", "Integer")
    n = env.int("start", 2, top)
    k = env.options("which", (0, 1, "n-1", "n-2"))
    want = {0: 0, 1: 1, "n-1": n - 1, "n-2": n - 2}[k]
    env.assume(want >= 0)
    r = Integer.shrink(n, lambda v: bool(v == want))
    if k == "n-2":
        # it is tried unless a smaller step failed before
        env.check(env.Or(r == want, r == n), "another value")
    else:
        env.check(r == want, "a value that is always to be tried was not")
    env.reach("tried")


def ordering(env, n, accepts, full=False):
    Ordering = need(S + ".ordering", "Ordering")
    xs = tuple(env.int("x", 0, 255) for _ in range(n))

    p = Predicate(env, xs, accepts)

    def pred(v):
        env.check(isinstance(v, tuple) and len(v) == n, "something else than a reordering was tried")
        for x in xs:
            env.check(count(env, v, x) == count(env, xs, x), "something else than a reordering was tried")
        return p(v)

    p.verdict(Ordering.shrink(xs, pred, full=full), lambda a, b: lex(env, a, b))


def count(env, xs, x):
    c = 0
    for y in xs:
        c = c + env.ite(x == y, 1, 0)
    return c


def lex(env, a, b):
    """a before b, of the same length"""
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = env.Or(x < y, env.And(x == y, r))
    return r


def simpler(env, a, b, key=lambda x: x):
    if len(a) != len(b):
        return len(a) < len(b)
    return lex(env, [key(x) for x in a], [key(x) for x in b])


def binary(env, n, min_size, accepts, top=255, full=False):
    Bytes = need(S + ".bytes", "Bytes")
    if top == 255:
        xs = env.bytes("start", n)
    else:
        xs = env.bytes("start", n)
        for x in xs:
            env.assume(x <= top)
    p = Predicate(env, xs, accepts, lambda v: len(v) >= min_size)

    def pred(v):
        env.check(isinstance(v, bytes), "something else than bytes was tried")
        return p(v)

    p.verdict(bytes(Bytes.shrink(xs, pred, min_size=min_size, full=full)), lambda a, b: simpler(env, a, b))


ALPHABETS = {"digits": [(48, 57)], "letters": [(65, 90), (97, 122)], "one": [(98, 98)], "two": [(48, 48), (97, 97)], "around": [(40, 60), (200, 210)]}


def text(env, n, min_size, alphabet, accepts, full=False):
    String = need(S + ".string", "String")
    IS = need("hypothesis.internal.intervalsets", "IntervalSet")
    ivs = IS(ALPHABETS[alphabet])
    s = env.str("start", n)
    for c in s:
        env.assume(env.Or(*[env.And(ord(c) >= a, ord(c) <= b) for a, b in ALPHABETS[alphabet]]))
    p = Predicate(env, s, accepts, lambda v: len(v) >= min_size)

    def pred(v):
        env.check(isinstance(v, str), "something else than text was tried")
        for c in v:
            env.check(env.Or(*[env.And(ord(c) >= a, ord(c) <= b) for a, b in ALPHABETS[alphabet]]), "a character outside the alphabet was tried")
        return p(v)

    p.verdict("".join(String.shrink(s, pred, intervals=ivs, min_size=min_size, full=full)), lambda a, b: simpler(env, a, b, ivs.index_from_char_in_shrink_order))


def collection(env, n, min_size, accepts):
    """elements with a simplicity order that is not their own"""
    Collection, Integer = need(S + ".collection", "Collection"), need(S + ".integer", "Integer")
    xs = tuple(env.int("x", 0, 6) for _ in range(n))
    p = Predicate(env, xs, accepts, lambda v: len(v) >= min_size)

    def pred(v):
        for x in v:
            env.check(env.And(x >= 0, x <= 6), "an element outside the domain was tried")
        return p(tuple(v))

    r = Collection.shrink(xs, pred, ElementShrinker=Integer, min_size=min_size, to_order=lambda x: 6 - x, from_order=lambda i: 6 - i)
    p.verdict(tuple(r), lambda a, b: simpler(env, a, b, lambda x: 6 - x))


FLOATS = (0.0, 0.1, 0.5, 1.5, 2.5, 3.0000000000000004, 256.0, 1e16, 9007199254740994.0, 2.0**70, 1.7976931348623157e308, math.inf, math.nan, 5e-324)


def floats(env, start, accepts, full=False):
    Float = need(S + ".floats", "Float")
    to_lex = need("hypothesis.internal.conjecture.floats", "float_to_lex")
    f = FLOATS[start]
    p = Predicate(env, f, accepts, limit=120)

    def pred(v):
        env.check(isinstance(v, float) or isinstance(v, int), "something else than a number was tried")
        env.check(not v < 0, "a negative number was tried")
        return p(v)

    r = Float.shrink(f, pred, full=full)
    p.verdict(r, lambda a, b: to_lex(float(a)) < to_lex(float(b)))


def float_threshold(env, start):
    Float = need(S + ".floats", "Float")
    f = FLOATS[start]
    t = env.int("threshold", 0, 2**64)
    env.assume(t <= f if math.isfinite(f) else t >= 0)
    if f != f:
        env.assume(False)
    r = Float.shrink(f, lambda v: bool(v >= t), full=True)
    env.check(r >= t, "the result does not satisfy the predicate")
    env.check(env.Or(r == t, r == f, r != int(r) if math.isfinite(r) else True, t > 2**53), "an integer above the threshold is left")
    env.reach("threshold")


# --- search helpers


def search(env, limit):
    find_integer = need(J, "find_integer")
    log = {}

    def f(n):
        env.check(isinstance(n, int) and n > 0, "a number was probed that is not positive")
        if n not in log:
            if len(log) >= limit:
                env.cut("more answers than the bound")
            log[n] = bool(env.bool("f"))
        return log[n]

    n = find_integer(f)
    env.check(n == 0 or log.get(n) is True, "the predicate is not known to hold at the result")
    env.check(log.get(n + 1) is False, "the predicate is not known to fail right after the result")
    env.reach("found")


def search_threshold(env, top):
    find_integer = need(J, "find_integer")
    t = env.int("t", 0, top)
    env.check(find_integer(lambda n: bool(n <= t)) == t, "the greatest number that satisfies a monotone predicate was not found")
    env.reach("found")


def bisect(env, span):
    binary_search = need(J, "binary_search")
    lo = env.int("lo", -1000, 1000)
    hi = lo + env.int("span", 1, span)
    log = [(lo, bool(env.bool("at lo")))]
    log.append((hi, not log[0][1]))

    def f(n):
        env.check(env.And(lo <= n, n <= hi), "probed outside the range")
        for v, a in log:
            if v == n:
                return a
        log.append((n, bool(env.bool("f"))))
        return log[-1][1]

    n = binary_search(lo, hi, f)
    env.check(f(n) == log[0][1], "the predicate is another one at the result than at the lower end")
    env.check(f(n + 1) != log[0][1], "the predicate does not change after the result")
    env.reach("found")


# --- the tree of choices of a shrink pass


class AnyRandom:
    def __init__(self, env):
        self.env = env

    def randrange(self, a, b=None):
        return self.env.choose("random", a) if b is None else a + self.env.choose("random", b - a)


def passes(env, sizes, order, conditions=True):
    """every combination of choices that satisfies the conditions is made exactly once"""
    Tree, prefix_order, random_order = need(S + ".choicetree", "ChoiceTree", "prefix_selection_order", "random_selection_order")
    ok, count = {}, {}

    def cond(trail, i):
        k = (*trail, i)
        if k not in ok:
            ok[k] = bool(env.bool("condition")) if conditions else True
        return ok[k]

    def size(trail):
        if trail not in count:
            count[trail] = env.choose("size", sizes[len(trail)] + 1)
        return count[trail]

    seen = []

    def f(chooser):
        trail = ()
        for _ in sizes:
            i = chooser.choose(range(size(trail)), lambda i: cond(trail, i))
            env.check(0 <= i < count[trail] and ok[(*trail, i)], "a choice that the condition excludes")
            trail = (*trail, i)
        seen.append(trail)

    tree = Tree()
    last = ()
    for _ in range(100):
        if tree.exhausted:
            break
        if order == "prefix":
            sel = prefix_order(last)
        else:
            sel = random_order(AnyRandom(env))
        last = tree.step(sel, f)
    env.check(tree.exhausted, "the tree of choices never ends")
    env.check(len(seen) == len(set(seen)), "a combination of choices was made twice")

    def leaves(trail):
        if len(trail) == len(sizes):
            yield trail
            return
        for i in range(size(trail)):
            if cond(trail, i):
                yield from leaves((*trail, i))

    env.check(set(leaves(())) == set(seen), "a combination of choices was left out")
    env.reach("exhausted")


OBLIGATIONS = [
    *[Ob(f"integer below 2**{b}, {k} accepted", integer, 60, tier=t, top=2**b - 1, accepts=k, opts=BV) for b, k, t in ((3, 8, "quick"), (5, 3, "quick"), (8, 2, "quick"), (12, 1, "quick"), (12, 2, "thorough"), (8, 3, "thorough"))],
    Ob("integer below 2**5, full, 3 accepted", integer, 60, top=31, accepts=3, full=True, opts=BV),
    *[Ob(f"threshold below 2**{b}", threshold, 60, tier=t, top=2**b - 1, full=True, opts=BV) for b, t in ((4, "quick"), (6, "quick"), (8, "thorough"), (16, "thorough"))],
    Ob("values always tried", guaranteed, 60, top=2**8, opts=BV),
    *[Ob(f"order {n}, {k} accepted", ordering, 60, tier=t, n=n, accepts=k, opts=OPTS) for n, k, t in ((1, 2, "quick"), (2, 3, "quick"), (3, 2, "quick"), (3, 4, "thorough"), (4, 1, "thorough"))],
    Ob("order 3, full", ordering, 60, tier="thorough", n=3, accepts=2, full=True, opts=OPTS),
    *[Ob(f"bytes {n}, at least {m}, {k} accepted", binary, 60, tier=t, n=n, min_size=m, accepts=k, opts=BV) for n, m, k, t in ((0, 0, 2, "quick"), (1, 0, 2, "quick"), (1, 1, 1, "quick"), (2, 0, 1, "thorough"), (2, 1, 1, "thorough"), (2, 2, 1, "thorough"), (3, 1, 1, "thorough"))],
    Ob("two small bytes", binary, 60, n=2, min_size=0, accepts=1, top=3, opts=BV),
    *[Ob(f"text {n}, {a}, at least {m}", text, 60, tier=t, n=n, min_size=m, alphabet=a, accepts=k, opts=OPTS) for n, m, a, k, t in ((1, 0, "digits", 2, "quick"), (1, 1, "letters", 1, "quick"), (1, 0, "around", 1, "quick"), (2, 0, "two", 2, "quick"), (2, 1, "one", 2, "quick"), (2, 0, "digits", 1, "thorough"), (2, 2, "letters", 1, "thorough"))],
    *[Ob(f"collection of {n}, at least {m}, {k} accepted", collection, 60, tier=t, n=n, min_size=m, accepts=k, opts=OPTS) for n, m, k, t in ((1, 0, 2, "quick"), (2, 1, 1, "quick"), (2, 0, 2, "thorough"), (3, 1, 1, "thorough"))],
    *[Ob(f"float {FLOATS[i]!r}", floats, 60, tier="quick" if i % 2 else "thorough", start=i, accepts=1, thorough={"accepts": 3}, opts=OPTS) for i in range(len(FLOATS))],
    *[Ob(f"threshold below {FLOATS[i]!r}", float_threshold, 60, tier="quick" if i in (4, 6) else "thorough", start=i, opts=OPTS) for i in range(len(FLOATS)) if i not in (12,)],
    Ob("greatest number, any predicate", search, 60, limit=14, opts=OPTS),
    Ob("greatest number, threshold", search_threshold, 60, top=2**12, opts=OPTS),
    Ob("binary search", bisect, 60, span=16, thorough={"span": 200}, opts=OPTS),
    Ob("choices of a pass, 3 x 2", passes, 60, sizes=(3, 2), order="prefix", opts=OPTS),
    Ob("choices of a pass, 2 x 2 x 2", passes, 60, sizes=(2, 2, 2), order="prefix", conditions=False, opts=OPTS),
    Ob("choices of a pass, 2 x 2, random order", passes, 60, sizes=(2, 2), order="random", opts=OPTS),
    Ob("choices of a pass, 3 x 3", passes, 200, tier="thorough", sizes=(3, 3), order="prefix", opts=OPTS),
]
