"""C05: interval sets behave like sets of code points."""

from symx.api import Ob, need, quick_plan

BOUNDS = (
    "interval sets of up to 2 x 2 intervals for union/intersection/difference and up to 3 for the positional "
    "operations (thorough: 3 x 3 and 4), arbitrary end points in 0..0x10FFFF, arbitrary code point / position"
)
OUTSIDE = "sets with more intervals"
ASSUMPTIONS = ["operands are normalised (sorted, disjoint, non-adjacent), which every constructor result is checked to be"]
M = "hypothesis.internal.intervalsets"
BV = {"ints": "int"}
TOP = 0x10FFFF


def ivs(env, name, k, normal=True):
    out = []
    prev = None
    for j in range(k):
        u = env.int(f"{name}{j}lo", 0, TOP)
        v = env.int(f"{name}{j}hi", 0, TOP)
        env.assume(u <= v)
        if prev is not None:
            env.assume(prev + 1 < u)
        prev = v
        out.append((u, v))
    return tuple(out)


def member(env, intervals, c):
    return env.Or(*[env.And(u <= c, c <= v) for u, v in intervals])


def normalised(env, intervals):
    prev = None
    r = []
    for u, v in intervals:
        r.append(u <= v)
        if prev is not None:
            r.append(prev + 1 < u)
        prev = v
    return env.And(*r)


def setop(env, op, n, m):
    (IS,) = (need(M, "IntervalSet"),)
    x, y = ivs(env, "x", n), ivs(env, "y", m)
    a, b = IS(x), IS(y)
    if op == "union":
        r, r2 = a.union(b), a | b
    elif op == "intersection":
        r, r2 = a.intersection(b), a & b
    else:
        r, r2 = a.difference(b), a - b
    env.reach(op)
    c = env.int("c", 0, TOP)
    ma, mb = member(env, x, c), member(env, y, c)
    want = {
        "union": env.Or(ma, mb),
        "intersection": env.And(ma, mb),
        "difference": env.And(ma, env.Not(mb)),
    }[op]
    env.check(env.Iff(member(env, r.intervals, c), want), f"{op}: wrong membership of a code point")
    env.check(env.Iff(member(env, r2.intervals, c), want), f"{op} operator: wrong membership of a code point")
    env.check(normalised(env, r.intervals), f"{op}: result is not sorted, disjoint and non-adjacent")
    env.check(env.Iff(r == r2, True), "operator and method disagree")


def size_of(intervals):
    n = 0
    for u, v in intervals:
        n = n + (v - u + 1)
    return n


def contains(env, k):
    (IS,) = (need(M, "IntervalSet"),)
    x = ivs(env, "x", k)
    s = IS(x)
    c = env.int("c", 0, TOP)
    env.check(env.Iff(c in s, member(env, x, c)), "membership by integer")
    env.check(len(s) == size_of(x), "size")
    env.reach("contains")
    if c in s:
        env.reach("member")
        env.check(chr(c) in s, "membership by character")


def getitem(env, k):
    (IS,) = (need(M, "IntervalSet"),)
    x = ivs(env, "x", k)
    s = IS(x)
    n = size_of(x)
    i = env.int("i", -(TOP + 3), TOP + 3)
    try:
        c = s[i]
    except IndexError:
        env.reach("out of range")
        env.check(env.Or(i >= n, i < -n), "IndexError for a valid position")
        return
    env.reach("item")
    env.check(env.And(i < n, i >= -n), "no IndexError for an invalid position")
    env.check(member(env, x, c), "item is not a member")
    j = env.ite(i < 0, i + n, i)
    below = 0
    for u, v in x:
        below = below + env.ite(c > v, v - u + 1, env.ite(c >= u, c - u, 0))
    env.check(below == j, "item at a position does not have that many members below it")


def index(env, k):
    (IS,) = (need(M, "IntervalSet"),)
    x = ivs(env, "x", k)
    s = IS(x)
    c = env.int("c", 0, TOP)
    below = 0
    for u, v in x:
        below = below + env.ite(c > v, v - u + 1, env.ite(c >= u, c - u, 0))
    env.check(s.index_above(c) == below, "index_above is not the number of smaller members")
    try:
        i = s.index(c)
    except ValueError:
        env.reach("absent")
        env.check(env.Not(member(env, x, c)), "ValueError for a member")
        return
    env.reach("present")
    env.check(member(env, x, c), "no ValueError for a non-member")
    env.check(i == below, "index is not the number of smaller members")


def shrink_order_from_index(env, k):
    (IS,) = (need(M, "IntervalSet"),)
    x = ivs(env, "x", k)
    s = IS(x)
    i = env.int("i", 0, TOP)
    env.assume(i < size_of(x))
    ch = s.char_in_shrink_order(i)
    env.check(member(env, x, ord(ch)), "character at a rank is not a member")
    env.reach("rank")
    env.check(s.index_from_char_in_shrink_order(ch) == i, "rank -> character -> rank changed")


def shrink_order_from_char(env, k):
    (IS,) = (need(M, "IntervalSet"),)
    x = ivs(env, "x", k)
    s = IS(x)
    c = env.int("c", 0, TOP)
    env.assume(member(env, x, c))
    i = s.index_from_char_in_shrink_order(chr(c))
    env.reach("char")
    env.check(env.And(i >= 0, i < size_of(x)), "rank out of range")
    env.check(ord(s.char_in_shrink_order(i)) == c, "character -> rank -> character changed")


def shrink_order_is_documented(env, k):
    (IS,) = (need(M, "IntervalSet"),)
    x = ivs(env, "x", k)
    s = IS(x)
    c, d = env.int("c", 0, TOP), env.int("d", 0, TOP)
    env.assume(env.And(member(env, x, c), member(env, x, d)))
    i, j = s.index_from_char_in_shrink_order(chr(c)), s.index_from_char_in_shrink_order(chr(d))
    env.reach("pair")
    mid_c, mid_d = env.And(c >= 48, c <= 90), env.And(d >= 48, d <= 90)
    env.check(env.Implies(env.And(mid_c, mid_d, c < d), i < j), "'0'..'Z' must be in ascending order")
    env.check(env.Implies(env.And(mid_c, env.Not(mid_d)), i < j), "'0'..'Z' must come before everything else")
    env.check(env.Implies(env.And(c < 48, d < 48, c > d), i < j), "below '0' the order is descending")
    env.check(env.Implies(env.And(c > 90, d > 90, c < d), i < j), "above 'Z' the order is ascending")


def from_string(env, n):
    (IS,) = (need(M, "IntervalSet"),)
    t = env.str("s", n)
    s = IS.from_string(t)
    c = env.int("c", 0, TOP)
    env.reach("string")
    env.check(
        env.Iff(member(env, s.intervals, c), env.Or(*[ord(q) == c for q in t])), "from_string: wrong members"
    )
    env.check(normalised(env, s.intervals), "from_string: not normalised")


def iteration(env, k):
    (IS,) = (need(M, "IntervalSet"),)
    x = []
    prev = None
    for j in range(k):
        u = env.int(f"lo{j}", 0, 8)
        v = env.int(f"hi{j}", 0, 8)
        env.assume(u <= v)
        if prev is not None:
            env.assume(prev + 1 < u)
        prev = v
        x.append((u, v))
    s = IS(x)
    got = list(s)
    env.check(len(got) == size_of(x), "iteration yields a wrong number of members")
    env.reach("iter")
    for a, b in zip(got, got[1:]):
        env.check(a < b, "iteration is not ascending")
    for a in got:
        env.check(member(env, x, a), "iteration yields a non-member")


OBLIGATIONS = [
    *[
        Ob(f"{op} {n}x{m}", setop, op=op, n=n, m=m, opts=BV, tier="quick" if max(n, m) < 3 else "thorough", budget=150 if n + m > 3 else 60)
        for op in ("union", "intersection", "difference")
        for n in (0, 1, 2, 3)
        for m in (0, 1, 2, 3)
    ],
    *[
        Ob(f"{f.__name__} {k}", f, k=k, opts=BV, tier="quick" if k < 4 else "thorough")
        for f in (contains, getitem, index, shrink_order_from_index, shrink_order_from_char, shrink_order_is_documented)
        for k in (1, 2, 3, 4)
    ],
    Ob("contains 0", contains, k=0, opts=BV),
    Ob("index 0", index, k=0, opts=BV),
    *[Ob(f"from_string {n}", from_string, n=n, opts=BV, tier="quick" if n < 4 else "thorough") for n in (1, 2, 3, 4)],
    *[Ob(f"iteration {k}", iteration, k=k, opts=BV, budget=60) for k in (1, 2)],
]

quick_plan(
    OBLIGATIONS,
    deep={
        "union 2x2",
        "difference 2x2",
    },
)
