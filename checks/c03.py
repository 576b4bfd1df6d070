"""C03: the simplicity index of choices is a bijection onto the permitted values."""

import math

from symx.api import Ob, need, quick_plan

from checks import fl

BOUNDS = (
    "integers: arbitrary (unbounded) value, bounds, index and shrink target, every combination of present and absent "
    "bounds; booleans: every double p in [0,1]; floats: every 64-bit value and every pair of bounds and smallest magnitude; "
    "bytes: every string of up to 7 bytes and every index of up to that size; text: every string of up to 6 characters "
    "(48 over two letters, 1 and 3 over the full alphabet) over alphabets of 1, 2, 3, 11, 300 and all non-surrogate "
    "characters, minimum sizes 0..2; counts: sizes up to 20 for one-letter, 4 for small alphabets"
)
OUTSIDE = "longer strings, other alphabets, weighted integers (weights do not enter the index)"
ASSUMPTIONS = [
    "math.log on integers is monotone (its crossings of whole numbers are located on the real function)",
    "floats: the map from indices to values is documented not to be injective, so only value -> index -> value is required",
]
CH = "hypothesis.internal.conjecture.choice"
DT = "hypothesis.internal.conjecture.datatree"
INT = {"ints": "int"}
BV = {"logic": "QF_BV", "fp": "havoc"}


def icons(env, lo, hi):
    a = env.int("min") if lo else None
    b = env.int("max") if hi else None
    if lo and hi:
        env.assume(a <= b)
    st = env.int("shrink_towards")
    return {"min_value": a, "max_value": b, "weights": None, "shrink_towards": st}


def simplest_int(env, c):
    t = c["shrink_towards"]
    if c["min_value"] is not None:
        t = env.ite(t < c["min_value"], c["min_value"], t)
    if c["max_value"] is not None:
        t = env.ite(t > c["max_value"], c["max_value"], t)
    return t


def int_value(env, lo, hi):
    to, fr, perm = need(CH, "choice_to_index", "choice_from_index", "choice_permitted")
    c = icons(env, lo, hi)
    v = env.int("v")
    ok = env.And(v >= c["min_value"] if lo else True, v <= c["max_value"] if hi else True)
    env.check(env.Iff(perm(v, c), ok), "choice_permitted disagrees with the bounds")
    env.assume(ok)
    i = to(v, c)
    env.reach("value")
    env.check(i >= 0, "negative index")
    env.check(fr(i, "integer", c) == v, "value -> index -> value changed the value")
    env.check(env.Iff(i == 0, v == simplest_int(env, c)), "index 0 is not exactly the simplest value")
    if lo and hi:
        env.check(i <= c["max_value"] - c["min_value"], "index beyond the number of permitted values")
    # documented order: nearer to the (clamped) target is simpler, above before below
    w = env.int("w")
    env.assume(env.And(w >= c["min_value"] if lo else True, w <= c["max_value"] if hi else True))
    j = to(w, c)
    t = simplest_int(env, c)
    dv, dw = env.ite(v > t, v - t, t - v), env.ite(w > t, w - t, t - w)
    env.check(env.Implies(dv < dw, i < j), "a value nearer the target has a larger index")
    env.check(env.Implies(env.And(dv == dw, v > w), i < j), "of two equally near values the larger must come first")


def int_index(env, lo, hi):
    to, fr, perm = need(CH, "choice_to_index", "choice_from_index", "choice_permitted")
    c = icons(env, lo, hi)
    i = env.int("i", 0, None)
    if lo and hi:
        env.assume(i <= c["max_value"] - c["min_value"])
        n = need(DT, "compute_max_children")("integer", c)
        env.check(n == c["max_value"] - c["min_value"] + 1, "count of permitted integers is wrong")
    v = fr(i, "integer", c)
    env.reach("index")
    env.check(perm(v, c), "an in-range index gives a value that is not permitted")
    env.check(to(v, c) == i, "index -> value -> index changed the index")


def boolean(env):
    to, fr, perm = need(CH, "choice_to_index", "choice_from_index", "choice_permitted")
    n = need(DT, "compute_max_children")
    p = env.float("p")
    env.assume(env.And(p >= 0.0, p <= 1.0))
    c = {"p": p}
    v, w = env.bool("v"), env.bool("w")
    v = True if v else False
    w = True if w else False
    k = n("boolean", c)
    pf, pt = perm(False, c), perm(True, c)
    env.check(env.Or(pf, pt), "no boolean is permitted")
    env.check(k == (2 if env.And(pf, pt) else 1), "count of permitted booleans is wrong")
    if perm(v, c):
        env.reach("value")
        i = to(v, c)
        env.check(env.And(i >= 0, i < k), "index out of range")
        env.check(fr(i, "boolean", c) == v, "value -> index -> value changed the value")
        if perm(w, c) and v != w:
            env.check(to(w, c) != i, "two permitted values have the same index")
            env.check(env.Implies(i == 0, env.Not(v)), "False must come first")
    env.check(perm(fr(0, "boolean", c), c), "the simplest value is not permitted")


def fcons(env, nan, anywhere=None):
    lo, hi, snm = env.float("lo"), env.float("hi"), anywhere or env.float("snm")
    for f in (lo, hi):
        env.assume(env.Not(fl.isnan(env, f)))
        if not anywhere:  # the bounds are themselves permitted
            env.assume(env.Or(fl.mag(env, f) == 0, fl.mag(env, f) >= fl.mag(env, snm)))
    env.assume(fl.le(env, lo, hi))
    env.assume(env.And(env.bits(snm) > 0, env.bits(snm) < fl.INF))
    return {"min_value": lo, "max_value": hi, "allow_nan": nan, "smallest_nonzero_magnitude": snm}


EXPONENTS = (0, 1023, 1075, 2046, 2047)


def few_exponents(env, v):
    e = (env.bits(v) >> 52) & 0x7FF
    env.assume(env.Or(*[e == k for k in EXPONENTS]))


def float_value(env, nan, few):
    to, fr, perm = need(CH, "choice_to_index", "choice_from_index", "choice_permitted")
    c = fcons(env, nan)
    v = env.float("v")
    ok = fl.permitted(env, v, c["min_value"], c["max_value"], nan, c["smallest_nonzero_magnitude"])
    env.check(env.Iff(perm(v, c), ok), "choice_permitted disagrees with the constraints")
    env.assume(ok)
    if few:
        few_exponents(env, v)
    i = to(v, c)
    env.reach("value")
    env.check(i >= 0, "negative index")
    env.check(env.same(fr(i, "float", c), v), "value -> index -> value changed the value")


def float_index(env, nan, sign, few):
    fr, perm = need(CH, "choice_from_index", "choice_permitted")
    c = fcons(env, nan)
    i = env.int("i", sign << 64, (sign << 64) + (1 << 64) - 1)
    if few:
        env.assume(env.Or((i >> 63) & 1 == 0, *[(i >> 52) & 0x7FF == k for k in (0, 10, 1024, 2047)]))
    v = fr(i, "float", c)
    env.reach("index")
    env.check(perm(v, c), "an index gives a float that is not permitted")


def float_count(env, anywhere=None):
    n = need(DT, "compute_max_children")
    c = fcons(env, False, anywhere)
    # case split on the signs so that each case is linear
    def rank(f):
        b = env.bits(f)
        return ~(b - (1 << 63)) if b >= (1 << 63) else b

    lo, hi, s = rank(c["min_value"]), rank(c["max_value"]), fl.mag(env, c["smallest_nonzero_magnitude"])

    def overlap(a, b):
        x = lo if lo > a else a
        y = hi if hi < b else b
        return y - x + 1 if x <= y else 0

    # ranks 1..s-1 are the too small positives, -s..-2 the too small negatives
    want = hi - lo + 1 - overlap(1, s - 1) - overlap(-s, -2)
    if anywhere:
        env.assume(want > 0)
    env.reach("count")
    env.check(n("float", c) == want, "number of permitted floats is wrong")


def float_children(env, k):
    n, children = need(DT, "compute_max_children", "all_children")
    perm = need(CH, "choice_permitted")
    c = fcons(env, False)
    m = n("float", c)
    env.assume(m == k)
    got = list(children("float", c))
    env.reach("children")
    env.check(len(got) == k, "children and their count disagree")
    for x in got:
        env.check(perm(x, c), "a listed child is not permitted")
    for a in range(len(got)):
        for b in range(a):
            env.check(env.bits(got[a]) != env.bits(got[b]), "a child is listed twice")


ALPHABETS = {
    "a": [(97, 97)],
    "ab": [(97, 98)],
    "mixed": [(33, 33), (48, 49)],
    "wide": [(40, 45), (50, 52), (100, 101)],
    "300": [(20, 319)],
    "all": [(0, 0xD7FF), (0xE000, 0x10FFFF)],
}


def scons(kind, alphabet, min_size):
    if kind == "bytes":
        return {"min_size": min_size, "max_size": 10**10}, 256
    IS = need("hypothesis.internal.intervalsets", "IntervalSet")
    iv = ALPHABETS[alphabet]
    return {"intervals": IS(iv), "min_size": min_size, "max_size": 10**10}, sum(b - a + 1 for a, b in iv)


def coll_value(env, kind, alphabet, min_size, n, high=False):
    to, fr, perm = need(CH, "choice_to_index", "choice_from_index", "choice_permitted")
    c, size = scons(kind, alphabet, min_size)
    if kind == "bytes":
        v = env.bytes("v", n)
    else:
        iv = ALPHABETS[alphabet]
        v = env.str("v", n, iv[0][0], iv[-1][1])
        for ch in v:
            env.assume(env.Or(*[env.And(ord(ch) >= a, ord(ch) <= b) for a, b in iv]))
        if high:
            # all but the last few characters are the greatest one
            top = c["intervals"].char_in_shrink_order(size - 1)
            v = top * (n - high) + v[:high]
    ok = n >= min_size
    env.check(env.Iff(perm(v, c), ok), "choice_permitted disagrees with size and alphabet")
    i = to(v, c)
    env.reach("value")
    env.check(i >= 0, "negative index")
    below = sum(size**k for k in range(min_size, n))
    env.check(env.And(i >= below, i < below + size**n), "shorter strings must come first, and all of a length be contiguous")
    r = fr(i, kind, c)
    env.check(len(r) == n, "value -> index -> value changed the length")
    if len(r) == n:
        for a, b in zip(v, r):
            env.check(a == b, "value -> index -> value changed the value")


def coll_index(env, kind, alphabet, min_size, n):
    to, fr, perm = need(CH, "choice_to_index", "choice_from_index", "choice_permitted")
    c, size = scons(kind, alphabet, min_size)
    i = env.int("i", 0, sum(size**k for k in range(min_size, n + 1)) - 1, mode="int")
    v = fr(i, kind, c)
    env.reach("index")
    env.check(perm(v, c), "an index gives a value that is not permitted")
    env.check(to(v, c) == i, "index -> value -> index changed the index")


def coll_order(env, kind, alphabet, n, m):
    """shorter first; equal length lexicographic in the element order"""
    to = need(CH, "choice_to_index")
    c, size = scons(kind, alphabet, 0)
    iv = ALPHABETS.get(alphabet) or [(0, 255)]
    v = env.bytes("v", n) if kind == "bytes" else env.str("v", n, iv[0][0], iv[-1][1])
    w = env.bytes("w", m) if kind == "bytes" else env.str("w", m, iv[0][0], iv[-1][1])
    key = (lambda x: x) if kind == "bytes" else c["intervals"].index_from_char_in_shrink_order
    if kind != "bytes":
        for ch in (*v, *w):
            env.assume(env.Or(*[env.And(ord(ch) >= a, ord(ch) <= b) for a, b in iv]))
    i, j = to(v, c), to(w, c)
    env.reach("order")
    if n != m:
        env.check((i < j) == (n < m), "a longer value came first")
        return
    lt, pre = False, True
    for a, b in zip(v, w):
        ka, kb = key(a), key(b)
        lt = env.Or(lt, env.And(pre, ka < kb))
        pre = env.And(pre, ka == kb)
    env.check(env.Iff(i < j, lt), "equal lengths must be ordered lexicographically")


def coll_count(env, kind, alphabet, top):
    n = need(DT, "compute_max_children")
    lim = need(DT, "MAX_CHILDREN_EFFECTIVELY_INFINITE")
    lo = env.choose("min_size", top + 1)
    hi = env.choose("max_size", top + 1)
    env.assume(lo <= hi)
    c, size = scons(kind, alphabet, lo)
    c["max_size"] = hi
    k = n(kind, c)
    true = sum(size**j for j in range(lo, hi + 1))
    env.reach("count")
    env.check(env.Or(k == true, env.And(k == lim, true >= lim)), "number of permitted values is wrong")


def int_children(env):
    children, n = need(DT, "all_children", "compute_max_children")
    perm = need(CH, "choice_permitted")
    c = icons(env, True, True)
    env.assume(c["max_value"] - c["min_value"] <= 4)
    got = list(children("integer", c))
    env.reach("children")
    env.check(len(got) == c["max_value"] - c["min_value"] + 1, "number of children")
    for x in got:
        env.check(perm(x, c), "a listed child is not permitted")
    for a in range(len(got)):
        for b in range(a):
            env.check(got[a] != got[b], "a child is listed twice")


def trivial(env, lo, hi):
    """a choice reported as impossible to simplify has index 0"""
    CN, to = need(CH, "ChoiceNode", "choice_to_index")
    c = icons(env, lo, hi)
    v = env.int("v")
    env.assume(env.And(v >= c["min_value"] if lo else True, v <= c["max_value"] if hi else True))
    node = CN(type="integer", value=v, constraints=c, was_forced=False)
    env.reach("trivial")
    env.check(env.Iff(node.trivial, to(v, c) == 0), "trivial must mean index 0")


def trivial_float(env):
    """a float reported as impossible to simplify has the least index of the permitted ones"""
    CN, to = need(CH, "ChoiceNode", "choice_to_index")
    c = fcons(env, env.bool("nan"))
    v, w = env.float("v"), env.float("w")
    for x in (v, w):
        env.assume(env.Not(fl.isnan(env, x)))
        env.assume(fl.permitted(env, x, c["min_value"], c["max_value"], c["allow_nan"], c["smallest_nonzero_magnitude"]))
    few_exponents(env, v)
    node = CN(type="float", value=v, constraints=c, was_forced=False)
    if node.trivial:
        env.reach("trivial")
        env.check(to(w, c) >= to(v, c), "a trivial float is not the simplest permitted one")


B = (False, True)
OBLIGATIONS = [
    *[Ob(f"integer value {lo} {hi}", int_value, lo=lo, hi=hi, opts=INT) for lo in B for hi in B],
    *[Ob(f"integer index {lo} {hi}", int_index, lo=lo, hi=hi, opts=INT) for lo in B for hi in B],
    *[Ob(f"integer trivial {lo} {hi}", trivial, lo=lo, hi=hi, opts=INT) for lo in B for hi in B],
    Ob("integer children", int_children, opts=INT),
    Ob("boolean", boolean, opts=BV),
    *[Ob(f"float value nan={n}" + (" few exponents" if few else ""), float_value, nan=n, few=few, opts=BV, budget=80,
         tier="quick" if few else "thorough", thorough=400) for n in B for few in B],
    *[Ob(f"float index nan={n} sign={sg}" + (" few exponents" if few else ""), float_index, nan=n, few=few, sign=sg, opts=BV,
         budget=80, tier="quick" if few else "thorough", thorough=600) for n in B for few in B for sg in (0, 1)],
    Ob("float count", float_count, opts=BV, budget=80),
    *[Ob(f"float count magnitude {m}", float_count, anywhere=m, opts=BV, budget=60) for m in (1.0, 2.0**-1022)],
    Ob("float trivial", trivial_float, opts=BV, budget=80),
    *[Ob(f"float children {k}", float_children, k=k, opts=BV, budget=60) for k in (1, 2, 3)],
    *[Ob(f"bytes value {n}", coll_value, kind="bytes", alphabet=None, min_size=0, n=n, opts=INT) for n in range(0, 8)],
    Ob("bytes value 4 min 2", coll_value, kind="bytes", alphabet=None, min_size=2, n=4, opts=INT),
    *[Ob(f"bytes index {n} min {m}", coll_index, kind="bytes", alphabet=None, min_size=m, n=n, opts=INT, budget=60)
      for n, m in ((2, 0), (7, 0), (4, 2))],
    *[Ob(f"text {a} value {n}", coll_value, kind="string", alphabet=a, min_size=0, n=n, opts=INT,
         tier="quick" if n < 4 else "thorough", budget=60)
      for a in ALPHABETS for n in ((0, 1, 2, 3, 4) if a != "all" else (0, 1, 2))],
    *[Ob(f"text {a} value {n} min {m}", coll_value, kind="string", alphabet=a, min_size=m, n=n, opts=INT)
      for a in ("a", "ab", "wide") for n, m in ((2, 1), (2, 2))],
    *[Ob(f"text {a} last values {n}", coll_value, kind="string", alphabet=a, min_size=0, n=n, high=2, opts=INT, budget=60)
      for a, n in (("ab", 12), ("ab", 47), ("mixed", 32), ("wide", 14), ("300", 6), ("all", 3))],
    *[Ob(f"text {a} index {n}", coll_index, kind="string", alphabet=a, min_size=0, n=n, opts=INT, budget=60)
      for a, n in (("a", 5), ("ab", 6), ("mixed", 4), ("wide", 3), ("300", 2), ("all", 1))],
    *[Ob(f"bytes order {n} {m}", coll_order, kind="bytes", alphabet=None, n=n, m=m, opts=INT)
      for n, m in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 1), (0, 1))],
    *[Ob(f"text {a} order {n} {m}", coll_order, kind="string", alphabet=a, n=n, m=m, opts=INT, budget=60)
      for a, n, m in (("wide", 2, 2), ("wide", 3, 2), ("all", 2, 2))],
    *[Ob(f"text {a} count", coll_count, kind="string", alphabet=a, top=t, opts=INT)
      for a, t in (("a", 20), ("ab", 18), ("wide", 6), ("300", 4))],
    Ob("bytes count", coll_count, kind="bytes", alphabet=None, top=4, opts=INT),
]

quick_plan(
    OBLIGATIONS,
    deep={
        "float trivial",
        "float count",
        "float count magnitude 2.2250738585072014e-308",
        "float index nan=False sign=0 few exponents",
        "float index nan=True sign=1 few exponents",
        "float children 3",
        "text ab last values 47",
        "text wide order 3 2",
        "text wide last values 14",
    },
)
