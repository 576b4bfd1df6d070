"""C15: internal sequence utilities agree with plain Python lists."""

from symx.api import Ob, need, quick_plan

BOUNDS = (
    "IntList, LazySequenceCopy and SelfOrganisingList: starting lists of 0..3 arbitrary elements and histories of up to 4 "
    "operations with arbitrary positions -5..5 and arbitrary values (IntList: 0..2**70; each array width boundary crossed); "
    "replace_all: lists of 0..4 elements and up to 2 (thorough 3) arbitrary replacements; prefix and suffix tests on lists of "
    "up to 3 elements; binary_search for arbitrary end points at most 48 apart (thorough 300); find_integer for every threshold up to 100 (thorough 1000) and in windows around 2**16, 2**32, 2**64 and 2**200"
)
OUTSIDE = "longer lists and histories"
ASSUMPTIONS = ["None is a legal element of a copied sequence"]
J = "hypothesis.internal.conjecture.junkdrawer"
INT = {"ints": "int"}


def arr(env, name, n, lo=0, hi=None):
    return [env.int(f"{name}{j}", lo, hi) for j in range(n)]


def eqlist(env, a, b, msg):
    a, b = list(a), list(b)
    env.check(len(a) == len(b), msg + ": length")
    if len(a) == len(b):
        env.check(env.And(*[x == y for x, y in zip(a, b)]), msg)


def attempt(f):
    try:
        return ("value", f())
    except (IndexError, ValueError) as e:
        return ("error", type(e).__name__)


def intlist(env, n, nops, top):
    IL = need(J, "IntList")
    ref = arr(env, "x", n, 0, top)
    il = IL(ref)
    ref = list(ref)
    for _ in range(nops):
        op = env.options("op", ("set", "append", "del", "insert", "get", "extend", "slice", "delslice"))
        i = env.options("i", tuple(range(-n - 2, n + 3))) if op in ("set", "del", "insert", "get") else 0
        if op == "set":
            v = env.int("v", 0, top)
            a, b = attempt(lambda: il.__setitem__(i, v)), attempt(lambda: ref.__setitem__(i, v))
            env.check(a == b, "assignment to a position: errors differ")
        elif op == "append":
            v = env.int("v", 0, top)
            il.append(v)
            ref.append(v)
        elif op == "extend":
            v = arr(env, "e", 2, 0, top)
            il.extend(v)
            ref.extend(v)
        elif op == "del":
            a, b = attempt(lambda: il.__delitem__(i)), attempt(lambda: ref.__delitem__(i))
            env.check(a == b, "deletion: errors differ")
        elif op == "insert":
            v = env.int("v", 0, top)
            il.insert(i, v)
            ref.insert(i, v)
        elif op == "get":
            a, b = attempt(lambda: il[i]), attempt(lambda: ref[i])
            env.check(a[0] == b[0], "reading a position: errors differ")
            env.check(a[1] == b[1], "reading a position gives a wrong value")
        elif op == "slice":
            s = slice(env.options("a", (None, -2, 0, 1)), env.options("b", (None, -1, 2)), env.options("c", (None, 2, -1)))
            eqlist(env, il[s], ref[s], "slice")
        else:
            s = slice(env.options("a", (None, -2, 1)), env.options("b", (None, -1, 2)), env.options("c", (None, 2)))
            del il[s]
            del ref[s]
        env.check(len(il) == len(ref), "length")
    env.reach("end")
    eqlist(env, il, ref, "contents differ from a list")
    w = env.int("w", 0, top)
    cnt = 0
    for x in ref:
        cnt = cnt + env.ite(x == w, 1, 0)
    env.check(il.count(w) == cnt, "count")
    other = IL(ref)
    env.check(env.Iff(il == other, True), "a list with the same contents compares unequal")
    env.check(env.Iff(il != other, False), "a list with the same contents compares unequal")


def intlist_rejects(env):
    IL = need(J, "IntList")
    x = arr(env, "x", 2, -300, 300)
    neg = env.Or(x[0] < 0, x[1] < 0)
    try:
        r = IL(x)
    except ValueError:
        env.reach("rejected")
        env.check(neg, "non-negative values were rejected")
        return
    env.reach("accepted")
    env.check(env.Not(neg), "a negative value was accepted")
    eqlist(env, r, x, "contents")


def elements(env, name, n):
    r = []
    for j in range(n):
        r.append(None if env.choose(f"{name}{j}none", 2) else env.int(f"{name}{j}"))
    return r


def same(env, a, b):
    if a is None or b is None:
        return a is b
    return a == b


def lazycopy(env, n, nops, ops):
    LSC = need(J, "LazySequenceCopy")
    base = elements(env, "x", n)
    orig = list(base)
    c = LSC(base)
    ref = list(base)
    idx = tuple(range(-n - 1, n + 1))
    for _ in range(nops):
        op = env.options("op", ops)
        if op == "pop":
            i = env.options("i", (*idx, "default"))
            if i == "default":
                a, b = attempt(lambda: c.pop()), attempt(lambda: ref.pop())
            else:
                a, b = attempt(lambda: c.pop(i)), attempt(lambda: ref.pop(i))
            env.check(a[0] == b[0], "pop: errors differ")
            env.check(same(env, a[1], b[1]), "pop returned a wrong element")
        elif op == "set":
            i = env.options("i", idx)
            v = None if env.choose("vnone", 2) else env.int("v")
            a, b = attempt(lambda: c.__setitem__(i, v)), attempt(lambda: ref.__setitem__(i, v))
            env.check(a == b, "assignment: errors differ")
        elif op == "swap":
            i, j = env.options("i", idx), env.options("j", idx)

            def sw():
                if i != j:
                    ref[i], ref[j] = ref[j], ref[i]

            a, b = attempt(lambda: c.swap(i, j)), attempt(sw)
            env.check(a == b, "swap: errors differ")
        else:
            i = env.options("i", idx)
            a, b = attempt(lambda: c[i]), attempt(lambda: ref[i])
            env.check(a[0] == b[0], "reading: errors differ")
            env.check(same(env, a[1], b[1]), "reading a position gives a wrong element")
        env.check(len(c) == len(ref), "length")
    env.reach("end")
    got = list(c)
    env.check(len(got) == len(ref), "iteration length")
    for a, b in zip(got, ref):
        env.check(same(env, a, b), "contents differ from a list")
    for a, b in zip(base, orig):
        env.check(same(env, a, b), "the original sequence was changed")
    env.check(len(base) == len(orig), "the original sequence was changed")


def organising(env, n, nops):
    SOL, NF = need(J, "SelfOrganisingList", "NotFound")
    x = arr(env, "x", n, None)
    s = SOL(x)
    ref = list(x)
    for _ in range(nops):
        if env.choose("add", 2):
            v = env.int("v")
            s.add(v)
            ref.append(v)
            continue
        t, hi = env.int("t"), env.int("hi")
        cond = lambda v: env.And(v >= t, v <= hi)
        any_ = env.Or(*[cond(v) for v in ref])
        try:
            r = s.find(cond)
        except NF:
            env.reach("not found")
            env.check(env.Not(any_), "find failed although an element satisfies the condition")
            continue
        env.reach("found")
        env.check(cond(r), "find returned an element that does not satisfy the condition")
        env.check(env.Or(*[r == v for v in ref]), "find returned a value that is not an element")
    # draining: elements come back in some order, each as often as it was put in
    seen = []
    w = env.int("w")
    cnt = 0
    for v in ref:
        cnt = cnt + env.ite(v == w, 1, 0)
    visited = []

    def spy(v):
        visited.append(v)
        return False

    try:
        s.find(spy)
    except NF:
        pass
    env.check(len(visited) == len(ref), "number of elements changed")
    got = 0
    for v in visited:
        got = got + env.ite(v == w, 1, 0)
    env.check(got == cnt, "the multiset of elements changed")


def replace(env, n, k):
    ra = need(J, "replace_all")
    ls = arr(env, "x", n, None)
    reps = []
    prev = 0
    want = []
    for j in range(k):
        u = env.choose(f"u{j}", n + 1)
        v = env.choose(f"v{j}", n + 1)
        env.assume(prev <= u)
        env.assume(u <= v)
        r = arr(env, f"r{j}_", env.choose(f"len{j}", 3), None)
        want = want + ls[prev:u] + r
        reps.append((u, v, r))
        prev = v
    want = want + ls[prev:]
    orig = list(ls)
    env.reach("replace")
    eqlist(env, ra(ls, reps), want, "replacement differs from splicing")
    eqlist(env, ls, orig, "the original list was changed")


def affixes(env, n, m):
    sw, ew = need(J, "startswith", "endswith")
    a, b = arr(env, "a", n, None), arr(env, "b", m, None)
    pre = m <= n and env.And(*[x == y for x, y in zip(a, b)])
    suf = m <= n and env.And(*[a[n - m + j] == b[j] for j in range(m)])
    env.reach("affix")
    env.check(env.Iff(sw(a, b), pre), "prefix test")
    env.check(env.Iff(ew(a, b), suf), "suffix test")


def bsearch(env, top):
    bs = need(J, "binary_search")
    lo, hi, t = env.int("lo"), env.int("hi"), env.int("t")
    env.assume(env.And(lo < t, t <= hi, hi - lo <= top))
    flip = env.bool("flip")
    r = bs(lo, hi, (lambda n: n >= t) if flip else (lambda n: n < t))
    env.reach("found")
    env.check(r == t - 1, "binary_search did not return the last position before the change")


def findint(env, lo, top):
    fi = need(J, "find_integer")
    t = env.int("t", lo, top)
    calls = []

    def f(n):
        env.check(n > 0, "asked about a number that is not positive")
        calls.append(n)
        return n <= t

    r = fi(f)
    env.reach("found")
    env.check(r == t, "find_integer did not return the threshold of a monotone predicate")


def findint_any(env, n):
    """any predicate that is false from n on: f(r) holds (or r == 0) and f(r+1) does not"""
    fi = need(J, "find_integer")
    b = [True] + [env.bool(f"f{j}") for j in range(1, n)]
    memo = lambda k: b[k] if k < n else False
    r = fi(lambda k: True if memo(k) else False)
    env.reach("found")
    env.check(memo(r), "f is false at the answer")
    env.check(env.Not(memo(r + 1)), "f is true just above the answer")


def bits(env):
    btb = need(J, "bits_to_bytes")
    n = env.int("n", 0, None)
    r = btb(n)
    env.reach("bits")
    env.check(env.And(r * 8 >= n, (r - 1) * 8 < n), "number of bytes for a number of bits")


def sorted_insertion(env, n):
    """the ordered-merge helper of the shrinker/pareto code: clamped binary search agrees with a linear scan"""
    bs = need(J, "binary_search")
    xs = arr(env, "x", n, None)
    for a, b in zip(xs, xs[1:]):
        env.assume(a <= b)
    y = env.int("y")
    env.assume(env.And(xs[0] <= y, y < xs[-1]))
    r = bs(0, n - 1, lambda i: xs[i] <= y)
    env.reach("position")
    r = env.concretize(r)
    env.check(env.And(xs[r] <= y, y < xs[r + 1]), "wrong insertion position")


OBLIGATIONS = [
    *[Ob(f"IntList {n} ops {k} up to {t}", intlist, n=n, nops=k, top=t, opts=INT, budget=60,
         tier="quick" if k < 3 else "thorough")
      for n, k, t in ((0, 2, 2**70), (1, 2, 2**70), (2, 2, 2**70), (3, 1, 2**70), (2, 1, 300), (1, 3, 2**70), (2, 3, 2**70))],
    Ob("IntList rejects", intlist_rejects, opts=INT),
    *[Ob(f"LazySequenceCopy {n} ops {k}", lazycopy, n=n, nops=k, ops=("pop", "set", "swap", "get"), opts=INT, budget=60,
         tier="quick" if n + k < 5 else "thorough")
      for n, k in ((0, 1), (1, 2), (2, 2), (3, 1), (1, 3), (2, 3), (3, 2), (3, 3))],
    *[Ob(f"LazySequenceCopy {n} pops {k}", lazycopy, n=n, nops=k, ops=("pop", "set"), opts=INT, budget=60,
         tier="quick" if n + k < 6 else "thorough")
      for n, k in ((2, 3), (3, 2), (3, 3))],
    *[Ob(f"SelfOrganisingList {n} ops {k}", organising, n=n, nops=k, opts=INT, budget=60, tier="quick" if n + k < 6 else "thorough")
      for n, k in ((0, 2), (1, 3), (2, 2), (3, 2), (3, 3))],
    *[Ob(f"replace_all {n} by {k}", replace, n=n, k=k, opts=INT, tier="quick" if k < 3 else "thorough")
      for n, k in ((0, 1), (2, 1), (3, 2), (4, 2), (4, 3))],
    *[Ob(f"affixes {n} {m}", affixes, n=n, m=m, opts=INT) for n in range(4) for m in range(4)],
    Ob("binary_search 48", bsearch, top=48, opts=INT, budget=60),
    Ob("binary_search 300", bsearch, top=300, opts=INT, tier="thorough"),
    Ob("find_integer 100", findint, lo=0, top=100, opts=INT, budget=60),
    Ob("find_integer 1000", findint, lo=0, top=1000, opts=INT, tier="thorough"),
    *[Ob(f"find_integer near 2**{e}", findint, lo=2**e - 3, top=2**e + 12, opts=INT) for e in (16, 32, 64, 200)],
    Ob("find_integer any 24", findint_any, n=24),
    Ob("bits_to_bytes", bits, opts=INT),
    *[Ob(f"sorted position {n}", sorted_insertion, n=n, opts=INT) for n in (2, 3, 5)],
]

quick_plan(
    OBLIGATIONS,
    deep={
        "IntList 3 ops 1 up to 1180591620717411303424",
        "IntList 0 ops 2 up to 1180591620717411303424",
    },
    budgets={
        "IntList 2 ops 2 up to 1180591620717411303424": 20,
        "IntList 1 ops 2 up to 1180591620717411303424": 20,
    },
)
