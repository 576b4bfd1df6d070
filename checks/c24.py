"""C24: text and character generation honours the requested alphabet and sizes."""

import sys
import unicodedata

from symx.api import Ob, need, quick_plan

from checks import draw

BOUNDS = (
    "every code point 0-0x10FFFF, every minimum/maximum code point (or none), 18 sets of categories (thorough: each single category and each pair of a "
    "small one with another), up to 2 (thorough: 3) arbitrary included and excluded characters, the codecs ascii, utf-8 and latin-1; alphabets of up to 3 arbitrary "
    "characters given as text, lists, sampled_from(), characters() and unions; sizes 0-2 / 0-3 or none with up to 3 characters above the minimum"
)
OUTSIDE = "other codecs, longer texts, from_regex() (N02)"
ASSUMPTIONS = [
    "the primitive string draw returns any value within its requested constraints (decided by C06)",
    "the category of a code point is what this Python's unicodedata says",
]
OPTS = {"ints": "int", "unhashable": True, "symset": True, "symdict": True}

_TABLE = {}


def table():
    """category -> runs of code points, from unicodedata alone"""
    if not _TABLE:
        last, start = unicodedata.category("\0"), 0
        for i in range(1, sys.maxunicode + 2):
            c = unicodedata.category(chr(i)) if i <= sys.maxunicode else None
            if c != last:
                _TABLE.setdefault(last, []).append((start, i - 1))
                last, start = c, i
    return _TABLE


def within(env, c, runs):
    return env.Or(*[env.And(a <= c, c <= b) for a, b in runs])


def merged(cats):
    """the fewest intervals covering these categories"""
    rs = sorted(r for k in cats for r in table()[k])
    out = []
    for a, b in rs:
        if out and out[-1][1] == a - 1:
            out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


MAJOR = "LMNPSZC"
SETS = [None, (), ("Zl",), ("Zs", "Zp"), ("Z",), ("Cc", "Cs"), ("Co",), ("Me", "Zl"), ("Pi", "Pf"), ("Lt",), ("Cs", "Co", "Zp"), ("Pc", "Zl", "Pc")]
BIG = [("Nd",), ("L",), ("C",), ("Lu", "Ll"), ("P", "S"), ("Cn", "Cs", "Cc")]


def expand(cats):
    if cats is None:
        return list(table())
    return [k for k in table() if any(k == c or (len(c) == 1 and k[0] == c) for c in cats)]


class inside:
    """a test case is running on a backend for which values are not looked up in tables"""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.bc = need("hypothesis.control", "BuildContext")(draw.data(self.env), is_final=False)
        return self.bc.__enter__()

    def __exit__(self, *a):
        return self.bc.__exit__(*a)


def check_intervals(env, ivs):
    """sorted, disjoint and non-empty"""
    last = -1
    for a, b in ivs:
        env.check(env.And(last < a, a <= b, b <= sys.maxunicode), "the intervals of the alphabet are out of order, overlap or are empty")
        last = b


def build(env, f):
    with inside(env):
        return draw.build(env, f)


def chars(env, name, n):
    return env.str(name, n) if n else ""


def has(env, s, c):
    return env.Or(*[ord(x) == c for x in s])


def bounds(env, both=True):
    lo = hi = None
    k = env.choose("bounds", 4) if both else 3
    if k & 1:
        lo = env.int("min_codepoint", 0, sys.maxunicode)
    if k & 2:
        hi = env.int("max_codepoint", 0, sys.maxunicode)
    return lo, hi


def in_bounds(env, c, lo, hi):
    return env.And(lo is None or lo <= c, hi is None or c <= hi)


def category_table(env):
    """charmap() computed afresh is what unicodedata says, and the cached copy is too"""
    import tempfile

    cfg = need("hypothesis.configuration")
    cm = need("hypothesis.internal.charmap")
    if not hasattr(cm, "_charmap"):
        need("hypothesis.internal.charmap", "_charmap")
    with tempfile.TemporaryDirectory() as d:
        cfg.set_hypothesis_home_dir(d)
        c = env.int("c", 0, sys.maxunicode)
        for what in ("computed", "stored"):
            cm._charmap = None
            got = cm.charmap()
            env.check(set(got) == set(table()), f"the {what} table has the wrong categories")
            for k in table():
                env.check([tuple(r) for r in got[k]] == [tuple(r) for r in table()[k]] or env.Iff(within(env, c, got[k]), within(env, c, table()[k])), f"the {what} table puts a code point in the wrong category")
        env.reach("table")
        cs = cm.categories()
        env.check(sorted(cs) == sorted(table()), "categories() is not a permutation of the categories")
        env.check(tuple(cs[-2:]) == ("Cc", "Cs"), "control characters and surrogates do not come last")


def general(env):
    f = need("hypothesis.internal.charmap", "as_general_categories")
    cats = [env.options("cat", sorted(table()) + list(MAJOR)) for _ in range(env.choose("n", 3))]
    r = f(cats)
    env.check(type(r) is tuple and len(set(r)) == len(r), "the categories are repeated")
    env.check(sorted(r) == sorted(expand(cats)), "the expanded categories are wrong")
    env.reach("general")


def query(env, sets, inc, exc, cached=False):
    q = need("hypothesis.internal.charmap", "query")
    cats = env.options("categories", sets)
    lo, hi = bounds(env)
    if lo is not None and hi is not None:
        env.assume(lo <= hi)
    i, e = chars(env, "include", inc), chars(env, "exclude", exc)
    kw = dict(min_codepoint=lo, max_codepoint=hi, categories=None if cats is None else tuple(expand(cats)), include_characters=i, exclude_characters=e)
    with inside(env):
        r = q(**kw)
    ivs = r.intervals
    check_intervals(env, ivs)
    c = env.int("c", 0, sys.maxunicode)
    spec = env.And(env.Or(env.And(cats is None or within(env, c, merged(expand(cats))), in_bounds(env, c, lo, hi)), has(env, i, c)), env.Not(has(env, e, c)))
    env.check(env.Iff(within(env, c, ivs), spec), "the alphabet has a code point it should not have, or lacks one")
    env.reach("queried")


def query_again(env):
    """answers for one set of arguments do not depend on what was asked before"""
    q = need("hypothesis.internal.charmap", "query")
    c = env.int("c", 0, sys.maxunicode)
    seen = []
    for n in range(3):
        k = env.options("args", [
            (("Zl",), None, None, "", ""), (("Zp", "Zl"), None, None, "", ""), (("Zl", "Zp"), 0x2029, None, "", ""), (("Zp", "Zl"), None, 0x2028, "", ""),
            (("Zl",), None, None, "a", ""), (("Zl",), None, None, "", "\u2028"), ((), None, None, "a", ""), ((), None, None, "b", ""), (None, 5, 9, "", ""), (None, 5, None, "", ""), (None, None, 5, "", ""),
        ])  # fmt: skip
        cats, lo, hi, i, e = k
        r = q(categories=cats, min_codepoint=lo, max_codepoint=hi, include_characters=i, exclude_characters=e)
        spec = env.And(env.Or(env.And(cats is None or within(env, c, merged(expand(cats))), in_bounds(env, c, lo, hi)), has(env, i, c)), env.Not(has(env, e, c)))
        env.check(env.Iff(within(env, c, r.intervals), spec), "a later query for an alphabet gives the wrong answer")
        seen.append(k)
    env.reach("queried again")


def characters(env, sets, inc, exc, codec=None, excluded=False):
    """characters() draws exactly what satisfies its arguments"""
    st = need("hypothesis.strategies")
    cats = env.options("categories", sets)
    lo, hi = bounds(env)
    i, e = chars(env, "include", inc), chars(env, "exclude", exc)
    kw = {}
    if lo is not None:
        kw["min_codepoint"] = lo
    if hi is not None:
        kw["max_codepoint"] = hi
    if cats is not None:
        kw["exclude_categories" if excluded else "categories"] = cats
    if inc:
        kw["include_characters"] = i
    if exc:
        kw["exclude_characters"] = e
    if codec:
        kw["codec"] = codec
    c = env.int("c", 0, sys.maxunicode)

    def ok_codec(c):
        if codec == "ascii":
            return c < 128
        if codec == "latin-1":
            return c < 256
        if codec == "utf-8":
            return env.Not(env.And(0xD800 <= c, c <= 0xDFFF))
        return True

    def ok(c):
        if cats is None:
            k = True
        else:
            k = within(env, c, merged(expand(cats)))
            if excluded:
                k = env.Not(k)
        return env.And(env.Or(env.And(k, in_bounds(env, c, lo, hi), ok_codec(c)), has(env, i, c)), env.Not(has(env, e, c)))

    useless = lo is None and hi is None and cats is None and inc and not codec
    if codec:
        # codecs are called on the included characters: keep those concrete
        env.assume(env.And(*[ok_codec(ord(x)) for x in i]))
    s = build(env, lambda: st.characters(**kw))
    if s is None:
        overlap = env.Or(*[has(env, e, ord(x)) for x in i])
        bad = env.Or(useless, overlap, lo is not None and hi is not None and lo > hi)
        env.check(env.Or(bad, env.Not(ok(c))), "satisfiable arguments were rejected")
        return
    o = draw.draw(env, s)
    env.check(o.kind == "value", "drawing a character was rejected")
    v = o.value
    env.check(env.And(type(v) is str, len(v) == 1), "the drawn value is not a single character")
    env.check(ok(ord(v)), "the drawn character does not satisfy the arguments")
    env.reach("character")
    if len(o.data.provider.requests) == 1:
        (ivs,) = o.data.provider.requests
        check_intervals(env, ivs)
        env.check(env.Iff(ok(c), within(env, c, ivs)), "a character that satisfies the arguments cannot be drawn")


def sizes(env):
    lo = env.choose("min_size", 3)
    hi = env.choose("max_size", 5) - 1
    if hi < 0:
        return lo, None
    env.assume(lo <= hi)
    return lo, hi


def text(env, alphabet, n=2):
    st = need("hypothesis.strategies")
    lo, hi = sizes(env)
    possible = True
    if alphabet == "default":
        a, ok = None, lambda c: env.Not(env.And(0xD800 <= c, c <= 0xDFFF))
    elif alphabet == "empty":
        a, ok, possible = "", (lambda c: False), False
    elif alphabet == "nothing":
        a, ok, possible = st.nothing(), (lambda c: False), False
    elif alphabet == "text":
        a = env.str("alphabet", n)
        ok = lambda c: has(env, a, c)  # noqa: E731
    elif alphabet == "list":
        xs = [env.str("x", 1) for _ in range(n)]
        a, ok = xs, lambda c: has(env, xs, c)
    elif alphabet == "tuple":
        xs = tuple(env.str("x", 1) for _ in range(n))
        a, ok = xs, lambda c: has(env, xs, c)
    elif alphabet == "sampled":
        xs = [env.str("x", 1) for _ in range(n)]
        a, ok = st.sampled_from(xs), lambda c: has(env, xs, c)
    elif alphabet == "characters":
        p, q = env.int("p", 0, sys.maxunicode), env.int("q", 0, sys.maxunicode)
        env.assume(p <= q)
        a, ok = st.characters(min_codepoint=p, max_codepoint=q), lambda c: env.And(p <= c, c <= q)
    elif alphabet == "union":
        p, q = env.int("p", 0, sys.maxunicode), env.int("q", 0, sys.maxunicode)
        env.assume(p <= q)
        xs = [env.str("x", 1) for _ in range(n)]
        a = st.one_of(st.characters(min_codepoint=p, max_codepoint=q), st.sampled_from(xs))
        ok = lambda c: env.Or(env.And(p <= c, c <= q), has(env, xs, c))  # noqa: E731
    elif alphabet == "mapped":
        xs = [env.str("x", 1) for _ in range(n)]
        ys = [env.str("y", 1) for _ in range(n)]
        a = st.integers(0, n - 1).map(lambda i: (xs if env.bool("first") else ys)[i])
        ok = lambda c: has(env, xs + ys, c)  # noqa: E731
    elif alphabet == "wide elements":
        # characters of more than one character must be rejected, whenever they appear
        xs = ["a", "bc", ""]
        a = st.integers(0, 2).map(lambda i: xs[env.concretize(i)])
        ok = lambda c: c == ord("a")  # noqa: E731
    kw = {"min_size": lo}
    if hi is not None:
        kw["max_size"] = hi
    args = () if a is None else (a,)
    s = build(env, lambda: st.text(*args, **kw))
    if s is None:
        env.check(not possible and lo > 0 or not possible and hi, "satisfiable arguments were rejected")
        return
    IA = need("hypothesis.errors", "InvalidArgument")
    try:
        o = draw.draw(env, s, max_choices=14)
    except IA:
        env.check(alphabet == "wide elements", "drawing raised an error")
        env.reach("rejected element")
        return
    if o.kind == "invalid" and not possible:
        env.check(lo > 0, "text of size 0 was rejected")
        env.reach("nothing")
        return
    env.check(o.kind == "value" or o.kind == "overrun", "drawing text was rejected")
    if o.kind != "value":
        return
    v = o.value
    env.check(type(v) is str, "the drawn value is not text")
    env.check(env.And(lo <= len(v), hi is None or len(v) <= hi), "the size of the text is out of bounds")
    for c in v:
        env.check(ok(ord(c)), "the text has a character that is not in the alphabet")
    env.reach("text")
    c = env.int("c", 0, sys.maxunicode)
    for ivs in o.data.provider.requests if alphabet != "union" else ():
        env.check(env.Iff(ok(c), within(env, c, ivs)), "a character of the alphabet cannot be drawn")


def binary(env):
    st = need("hypothesis.strategies")
    lo, hi = sizes(env)
    kw = {"min_size": lo}
    if hi is not None:
        kw["max_size"] = hi
    s = build(env, lambda: st.binary(**kw))
    env.check(s is not None, "satisfiable arguments were rejected")
    o = draw.draw(env, s)
    env.check(o.kind == "value", "drawing bytes was rejected")
    env.check(type(o.value) is bytes, "the drawn value is not bytes")
    env.check(env.And(lo <= len(o.value), hi is None or len(o.value) <= hi), "the size of the bytes is out of bounds")
    env.reach("bytes")


def bad_sizes(env, what):
    """sizes that admit nothing are rejected"""
    st = need("hypothesis.strategies")
    lo, hi = env.int("min_size", -5, 5), env.int("max_size", -5, 5)
    s = build(env, lambda: getattr(st, what)(min_size=lo, max_size=hi))
    env.check(env.Iff(s is not None, env.And(0 <= lo, lo <= hi)), "sizes were wrongly accepted or rejected")
    env.reach("sizes")


def obligations():
    obs = [
        Ob("category table", category_table, 80, opts=OPTS),
        Ob("general categories", general, 40, opts=OPTS),
        Ob("query again", query_again, 40, opts=OPTS),
        Ob("text sizes", bad_sizes, 20, what="text", opts=OPTS),
        Ob("binary sizes", bad_sizes, 20, what="binary", opts=OPTS),
        Ob("binary", binary, 20, opts=OPTS),
    ]
    for k in SETS:
        obs.append(Ob(f"query {k}", query, 30, sets=[k], inc=0, exc=0, opts=OPTS))
    few = [None, (), ("Zl",), ("Cc", "Cs")]
    for k in few:
        for inc, exc in [(1, 0), (0, 1), (1, 1)]:
            obs.append(Ob(f"query {k} +{inc} -{exc}", query, 40, sets=[k], inc=inc, exc=exc, opts=OPTS))
            obs.append(Ob(f"characters {k} +{inc} -{exc}", characters, 40, sets=[k], inc=inc, exc=exc, opts=OPTS))
        for inc, exc in [(2, 0), (0, 2)]:
            obs.append(Ob(f"query {k} +{inc} -{exc}", query, 40, tier="thorough" if k else "quick", sets=[k], inc=inc, exc=exc, opts=OPTS))
        for inc, exc in [(1, 2), (2, 1)]:
            obs.append(Ob(f"query {k} +{inc} -{exc}", query, 60, tier="thorough", sets=[k], inc=inc, exc=exc, opts=OPTS))
    for k in (None, ("Zs", "Zp"), ("Cc", "Cs"), ("Pc", "Zl", "Pc"), ("Zl",)):
        obs.append(Ob(f"characters {k}", characters, 30, sets=[k], inc=0, exc=0, opts=OPTS))
    # all but a few
    for i, k in enumerate([("Cs", "Cn", "Co", "L", "M", "N", "P", "S"), tuple("LMNPS") + ("Zs", "C"), tuple(MAJOR)]):
        obs.append(Ob(f"characters excluded {i}", characters, 40, sets=[k], inc=0, exc=0, excluded=True, opts=OPTS))
    obs.append(Ob("characters excluded +1", characters, 40, sets=[tuple("LMNPS") + ("Zs", "C"), tuple(MAJOR)], inc=1, exc=0, excluded=True, opts=OPTS))
    obs.append(Ob("characters excluded -1", characters, 40, sets=[tuple("LMNPS") + ("Zs", "C")], inc=0, exc=1, excluded=True, opts=OPTS))
    for codec in ("ascii", "utf-8", "latin-1"):
        for k in (None, ("Cs",), ("Cc",)):
            obs.append(Ob(f"characters {codec} {k}", characters, 40, sets=[k], inc=0, exc=0, codec=codec, opts=OPTS))
        for k in (None, ("Cs",)):
            obs.append(Ob(f"characters {codec} {k} +1", characters, 40, tier="thorough" if codec == "utf-8" else "quick", sets=[k], inc=1, exc=0, codec=codec, opts=OPTS))
        obs.append(Ob(f"characters {codec} {k} -1", characters, 40, tier="thorough" if codec == "utf-8" else "quick", sets=[None], inc=0, exc=1, codec=codec, opts=OPTS))
    for a in ("default", "empty", "nothing", "text", "list", "tuple", "sampled", "characters", "union", "mapped", "wide elements"):
        obs.append(Ob(f"text {a}", text, 40, alphabet=a, n=1 if a == "mapped" else 2, opts=OPTS))
        if a in ("text", "sampled"):
            obs.append(Ob(f"text {a} 1", text, 30, alphabet=a, n=1, opts=OPTS))
            obs.append(Ob(f"text {a} 3", text, 60, tier="thorough", alphabet=a, n=3, opts=OPTS))
    for k in BIG:
        obs.append(Ob(f"query {k}", query, 60, tier="thorough", sets=[k], inc=0, exc=0, opts=OPTS))
    for k in sorted(table()):
        obs.append(Ob(f"query {k}", query, 60, tier="thorough", sets=[(k,)], inc=0, exc=0, opts=OPTS))
    return obs


OBLIGATIONS = obligations()

quick_plan(
    OBLIGATIONS,
    deep={
        "characters ('Cc', 'Cs') +1 -1",
        "query None +0 -2",
        "query None +2 -0",
    },
    budgets={
        "text union": 15,
    },
)
