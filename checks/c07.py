"""C07: replaying a recorded test case reproduces exactly the same choices."""

import math

from symx.api import Ob, need

from checks import draw, fl

BOUNDS = (
    "test bodies of up to 3 requests of every kind, with arbitrary constraints (integer bounds below 2**64 in magnitude, alphabets of one arbitrary interval, sizes up to 2, six pairs of float bounds), forced or not, "
    "where the second request may depend on the first value, ending in any outcome; prefixes of up to 3 arbitrary values of any type; every limit of up to 3 choices; "
    "serialized sizes around the maximum; every sequence of up to 4 (thorough 5) span openings, closings, discards and draws; some 25 strategies of every collection and combinator kind drawn twice in a row"
)
OUTSIDE = "longer test bodies, integer weights, alternative backends"
ASSUMPTIONS = ["fresh choices are arbitrary values permitted by the constraints (decided by C06)", "the index-0 choice is the simplest permitted one (decided by C03)"]
D = "hypothesis.internal.conjecture.data"
C = "hypothesis.internal.conjecture.choice"
OPTS = {}
KINDS = ("boolean", "integer", "string", "bytes", "float")


def request(env, kind, forced=None):
    """arbitrary arguments of one request, and a permitted value if it is forced"""
    if forced is None:
        forced = env.bool("forced")
    if kind == "boolean":
        p = env.options("p", (0.0, 0.5, 1.0))
        kw = {"p": p}
        v = p == 1.0 if p != 0.5 else env.bool("v") if forced else None
    elif kind == "integer":
        kw = {"min_value": None, "max_value": None, "shrink_towards": env.int("toward", -5, 5)}
        v = env.int("v", -(2**64), 2**64) if forced else None
        if env.bool("lower bound"):
            kw["min_value"] = lo = env.int("lo", -(2**63), 2**63)
            if forced:
                env.assume(lo <= v)
        if env.bool("upper bound"):
            kw["max_value"] = hi = env.int("hi", -(2**63), 2**63)
            if forced:
                env.assume(v <= hi)
            if kw["min_value"] is not None:
                env.assume(kw["min_value"] <= hi)
    elif kind == "string":
        IntervalSet = need("hypothesis.internal.intervalsets", "IntervalSet")
        a, b = env.int("a", 32, 200), env.int("b", 32, 200)
        env.assume(a <= b)
        lo = env.choose("min_size", 2)
        hi = lo + env.choose("more", 2)
        kw = {"intervals": IntervalSet([(a, b)]), "min_size": lo, "max_size": hi}
        v = None
        if forced:
            v = env.str("v", lo + env.choose("len", hi - lo + 1))
            for c in v:
                env.assume(env.And(ord(c) >= a, ord(c) <= b))
    elif kind == "bytes":
        lo = env.choose("min_size", 2)
        hi = lo + env.choose("more", 2)
        kw = {"min_size": lo, "max_size": hi}
        v = env.bytes("v", lo + env.choose("len", hi - lo + 1)) if forced else None
    else:
        a, b = env.options("bounds", ((-math.inf, math.inf), (-0.0, 0.0), (0.1, 0.7), (-5.5, -1e-300), (0.5, math.inf), (-math.inf, 1e300)))
        nan = env.bool("nan")
        kw = {"min_value": a, "max_value": b, "allow_nan": nan, "smallest_nonzero_magnitude": 5e-324}
        v = None
        if forced:
            v = env.float("v")
            env.assume(fl.permitted(env, v, a, b, nan, 5e-324))
    return kind, kw, v if forced else None


def ask(data, r):
    kind, kw, forced = r
    return getattr(data, "draw_" + kind)(**kw, forced=forced)


def execute(data, body):
    """run a test body on the data"""
    Stop = need("hypothesis.errors", "StopTest")
    try:
        body(data)
    except Stop:
        pass
    data.freeze()
    return data


def new(env, prefix=None, limit=None, provider=None):
    CD = need(D, "ConjectureData")
    return CD(random=None, prefix=prefix, max_choices=limit, provider=provider or draw.provider_class(env))


def stingy(env):
    class P(draw.provider_class(env)):
        def draw_boolean(self, *a, **k):
            env.check(False, "a fresh choice was made although all choices were given")

        draw_integer = draw_float = draw_string = draw_bytes = draw_boolean

    return P


def compare(env, a, b):
    env.check(a.status is b.status, "the outcome is another one")
    env.check(a.interesting_origin == b.interesting_origin, "the origin of the failure is another one")
    env.check(len(a.nodes) == len(b.nodes), "the number of recorded choices is another one")
    for x, y in zip(a.nodes, b.nodes):
        env.check(x.type == y.type and env.same(x.value, y.value), "another choice was recorded")
        env.check(x.was_forced == y.was_forced, "a choice is recorded as forced although it was not, or the reverse")
        env.check(x.index == y.index, "a choice was recorded at another position")
    if a.status is not need(D, "Status").OVERRUN:
        sa, sb = a.spans, b.spans
        env.check(len(sa) == len(sb), "other spans were recorded")
        for x, y in zip(sa, sb):
            env.check((x.start, x.end, x.depth, x.label, x.discarded, x.parent) == (y.start, y.end, y.depth, y.label, y.discarded, y.parent), "other spans were recorded")


def finish(env, data, how):
    if how == "invalid":
        data.mark_invalid()
    elif how == "interesting":
        data.mark_interesting("origin")


def replay(env, kinds):
    """a test body replayed on the choices it recorded"""
    CD = need(D, "ConjectureData")
    rs = [request(env, k) for k in kinds]
    end = env.options("end", ("valid", "invalid", "interesting"))
    values = []

    def body(data):
        got = []
        for i, r in enumerate(rs):
            data.start_span(i)
            got.append(ask(data, r))
            data.stop_span(discard=i == 1)
        values.append(got)
        finish(env, data, end)

    a = execute(new(env), body)
    env.check(len(a.nodes) == len(kinds), "not every choice was recorded")
    for n, r, v in zip(a.nodes, rs, values[0]):
        env.check(env.same(n.value, v), "another value was recorded than was returned")
        env.check(n.was_forced == (r[2] is not None), "a choice is recorded as forced although it was not, or the reverse")
        if r[2] is not None:
            env.check(env.same(v, r[2]), "a forced value was not returned as it is")
    b = execute(CD.for_choices(a.choices, provider=stingy(env)), body)
    for u, v in zip(*values):
        env.check(env.same(u, v), "a replayed value is another one")
    env.check(b.misaligned_at is None, "a replay is marked as misaligned")
    compare(env, a, b)
    env.reach("replayed")


def branching(env, first, second, third):
    """the later requests depend on the first value"""
    CD = need(D, "ConjectureData")
    rs = [request(env, k, False) for k in (first, second, third)]
    end = env.options("end", ("valid", "interesting"))
    k = env.int("threshold", -(2**63), 2**63)

    def body(data):
        x = ask(data, rs[0])
        if x >= k:
            ask(data, rs[1])
        else:
            ask(data, rs[2])
            ask(data, rs[1])
        finish(env, data, end)

    a = execute(new(env), body)
    b = execute(CD.for_choices(a.choices, provider=stingy(env)), body)
    env.check(b.misaligned_at is None, "a replay is marked as misaligned")
    compare(env, a, b)
    env.reach(f"{len(a.nodes)} choices")


def anything(env, name="x"):
    kind = env.options("kind", KINDS)
    if kind == "boolean":
        return kind, env.bool(name)
    if kind == "integer":
        return kind, env.int(name, -(2**64), 2**64)
    if kind == "float":
        return kind, env.float(name)
    n = env.choose("len", 3)
    return kind, env.str(name, n) if kind == "string" else env.bytes(name, n)


def prefix(env, kinds, n):
    """any prefix, in front of requests it may not fit"""
    cfi, permitted = need(C, "choice_from_index", "choice_permitted")
    St, OV = need(D, "Status", "ConjectureData")
    given = [anything(env) for _ in range(n)]
    rs = [request(env, k) for k in kinds]
    got = []

    def body(data):
        for r in rs:
            got.append(ask(data, r))

    data = execute(new(env, prefix=tuple(v for _, v in given)), body)
    env.check(len(got) == len(rs) and data.status is St.VALID, "a test case without a limit ended early")
    first = None
    for i, ((kind, kw, forced), v) in enumerate(zip(rs, got)):
        if i < n:
            fits = given[i][0] == kind and bool(fits_request(env, kind, kw, given[i][1]))
            if not fits and first is None:
                first = i
            if forced is not None:
                env.check(env.same(v, forced), "a forced value was not returned as it is")
            elif fits:
                env.check(env.same(v, given[i][1]), "a given choice that fits was replaced")
                env.reach("fits")
            else:
                env.check(env.same(v, cfi(0, kind, data.nodes[i].constraints)), "a given choice that does not fit was not replaced by the simplest one")
                env.reach("does not fit")
        elif forced is not None:
            env.check(env.same(v, forced), "a forced value was not returned as it is")
    if first is None:
        env.check(data.misaligned_at is None, "marked as misaligned although every given choice fits")
    else:
        env.check(data.misaligned_at is not None and data.misaligned_at[0] == first, "not marked as misaligned at the first choice that does not fit")
        env.check(data.misaligned_at[1] == kinds[first], "the misalignment is recorded with another kind of choice")


def fits_request(env, kind, kw, v):
    """whether the constraints permit a value of the right type"""
    if kind == "boolean":
        return kw["p"] == 0.5 or v == (kw["p"] == 1.0)
    if kind == "integer":
        a, b = kw["min_value"], kw["max_value"]
        return env.And(True if a is None else a <= v, True if b is None else v <= b)
    if kind == "float":
        return fl.permitted(env, v, kw["min_value"], kw["max_value"], kw["allow_nan"], 5e-324)
    if not kw["min_size"] <= len(v) <= kw["max_size"]:
        return False
    if kind == "bytes":
        return True
    [(a, b)] = kw["intervals"].intervals
    return env.And(*[env.And(a <= ord(c), ord(c) <= b) for c in v])


def limits(env, n):
    """no more than the maximum number of choices"""
    St = need(D, "Status")
    limit = env.choose("limit", n + 2)
    given = env.choose("given", limit + 1)
    end = env.options("end", ("valid", "invalid", "interesting"))
    xs = [env.int("x", 0, 255) for _ in range(given)]
    asked = []

    def body(data):
        for _ in range(n):
            asked.append(None)
            data.draw_integer(0, 255)
        finish(env, data, end)

    data = execute(new(env, prefix=tuple(xs), limit=limit), body)
    if n > limit:
        env.check(data.status is St.OVERRUN, "more choices than the maximum did not end the test case as an overrun")
        env.check(len(data.nodes) <= limit, "more choices than the maximum were recorded")
        env.check(len(asked) == limit + 1, "the test case went on after exceeding the maximum number of choices")
        env.reach("overrun")
    else:
        env.check(data.status is {"valid": St.VALID, "invalid": St.INVALID, "interesting": St.INTERESTING}[end], "a test case within the limits ended otherwise")
        env.check(len(data.nodes) == n, "not every choice was recorded")
        env.reach("within")
    for x, node in zip(xs, data.nodes):
        env.check(node.value == x, "a given choice was replaced")


def real_size(env):
    """no more than the maximum total size"""
    St, size = need(D, "Status"), need(C, "choices_size")

    class P(draw.provider_class(env)):
        avoid_realization = False

    data = new(env, provider=P)
    data.max_length = m = env.choose("maximum", 8)
    kinds = [env.options("kind", ("boolean", "bytes", "integer")) for _ in range(3)]
    values = []
    n = env.choose("len", 4)

    def body(data):
        for k in kinds:
            v = None
            if k == "boolean":
                v = data.draw_boolean(0.5)
            elif k == "bytes":
                v = data.draw_bytes(n, n)
            else:
                v = data.draw_integer(0, 2**15)
            values.append(v)

    execute(data, body)
    total = 0
    for k, node in zip(kinds, data.nodes):
        total = total + size([node.value])
    env.check(env.And(data.length == total, total <= m), "the recorded choices are larger than the maximum")
    if data.status is St.OVERRUN:
        env.reach("overrun")
        env.check(len(values) < 3, "an overrun was reported although the test case was over")
    else:
        env.check(data.status is St.VALID and len(values) == 3, "the test case ended otherwise")
        env.reach("within")


def simplest(env, kinds):
    """a request to continue with simplest choices"""
    T, cfi = need(C, "ChoiceTemplate", "choice_from_index")
    St = need(D, "Status")
    count = env.options("count", (None, 1, 2, 3))
    rs = [request(env, k) for k in kinds]
    x = env.int("x", 0, 255)
    HP = need("hypothesis.internal.conjecture.providers", "HypothesisProvider")

    def body(data):
        data.draw_integer(0, 255)
        for r in rs:
            ask(data, r)

    CD = need(D, "ConjectureData")

    class P(HP):
        # the real provider, to which templates are special, without its memory
        avoid_realization = True

    data = execute(CD(random=None, prefix=(x, T("simplest", count=count)), provider=P), body)
    n = len(rs) if count is None else min(count, len(rs))
    env.check((data.status is St.OVERRUN) == (n < len(rs)), "the number of simplest choices is not the requested one")
    env.check(len(data.nodes) == 1 + n, "the number of simplest choices is not the requested one")
    for node, r in zip(data.nodes[1:], rs):
        env.check(env.same(node.value, cfi(0, node.type, node.constraints) if r[2] is None else r[2]), "a choice is not the simplest one")
    env.check(data.nodes[0].value == x, "a given choice was replaced")
    env.reach("template")


# --- spans ---


def tree(env, n, exceptions=False):
    """spans opened and closed in every order"""
    St = need(D, "Status")
    data = new(env)
    ops, expected, open_ = [], [], []  # expected: [label, start, end, depth, parent, discarded]
    drawn = 0
    top = [None, 0, None, 0, None, False]
    expected.append(top)
    open_.append(0)
    Stop = need("hypothesis.errors", "StopTest")
    discards = False
    for i in range(n):
        op = env.options("op", ("open", "draw", "close", "discard") if len(open_) > 1 else ("open", "draw"))
        if op == "open":
            data.start_span(100 + i)
            expected.append([100 + i, drawn, None, len(open_), open_[-1], False])
            open_.append(len(expected) - 1)
        elif op == "draw":
            data.draw_boolean()
            drawn += 1
        else:
            data.stop_span(discard=op == "discard")
            e = expected[open_.pop()]
            e[2], e[5] = drawn, op == "discard"
            discards = discards or op == "discard"
    end = env.options("end", ("valid", "invalid", "interesting"))
    try:
        finish(env, data, end)
    except Stop:
        pass
    data.freeze()
    data.stop_span()  # closing what is left open has no effect any more
    for i in open_:
        expected[i][2] = drawn
    got = list(data.spans)
    env.check(len(got) == len(expected), "the number of spans is wrong")
    for i, (g, e) in enumerate(zip(got, expected)):
        env.check(g.start == e[1] and g.end == e[2], "a span has the wrong ends")
        env.check(i == 0 or g.label == e[0], "a span has the wrong label")
        env.check(g.depth == e[3] and g.parent == e[4], "a span has the wrong place in the tree")
        env.check(bool(g.discarded) == e[5], "a span is discarded although it was not, or the reverse")
        env.check(g.choice_count == e[2] - e[1], "a span has the wrong number of choices")
        env.check([c.index for c in g.children] == [j for j, x in enumerate(expected) if x[4] == i], "a span has the wrong children")
        if e[4] is not None:
            p = got[g.parent]
            env.check(p.start <= g.start and g.end <= p.end, "a span lies outside its parent")
    env.check(bool(data.has_discards) == discards, "discarded spans are not noted")
    env.reach(f"{len(got)} spans")


class Oops(Exception):
    pass


def strategies():
    st = need("hypothesis.strategies")

    @st.composite
    def composed(draw_):
        return [draw_(st.booleans()), draw_(st.lists(st.booleans(), max_size=1))]

    b, i = st.booleans(), st.integers(0, 3)
    return {
        "booleans": b,
        "lists": st.lists(b, max_size=2),
        "lists of some": st.lists(b, min_size=1, max_size=2),
        "unique lists": st.lists(i, unique=True, max_size=2),
        "unique lists of samples": st.lists(st.sampled_from([1, 2]), unique=True),
        "all of the samples": st.lists(st.sampled_from([1, 2]), unique=True, min_size=2),
        "unique lists of filtered samples": st.lists(st.sampled_from([1, 2, 3]).filter(lambda x: x > 1), unique=True, max_size=2),
        "lists of samples unique by": st.lists(st.sampled_from([1, 2, 3]), unique_by=lambda x: x % 2),
        "sets": st.sets(i, max_size=2),
        "sets of samples": st.sets(st.sampled_from([1, 2])),
        "dictionaries": st.dictionaries(i, b, max_size=2),
        "dictionaries of samples": st.dictionaries(st.sampled_from([1, 2]), b),
        "fixed dictionaries": st.fixed_dictionaries({"a": b}, optional={"b": b}),
        "tuples": st.tuples(b, i),
        "one of": b | i,
        "filtered": i.filter(lambda x: x > 1),
        "flat mapped": i.flatmap(lambda n: st.lists(b, min_size=n % 2, max_size=n % 2)),
        "iterables": st.iterables(b, max_size=2),
        "permutations": st.permutations([1, 2]),
        "recursive": st.recursive(b, lambda x: st.lists(x, max_size=1), max_leaves=2),
        "shared": st.shared(b, key="k"),
        "composite": composed(),
        "text of an alphabet": st.text(st.sampled_from("ab"), max_size=2),
        "deferred": st.deferred(lambda: b),
        "mapped to an error": st.integers(0, 1).map(oops),
    }


def oops(x):
    if x:
        raise Oops
    return x


def balanced(env, what):
    """drawing a value leaves no span open, and the next value is not inside its span"""
    St, Stop = need(D, "Status"), need("hypothesis.errors", "StopTest")
    s = strategies()[what]
    data = new(env, provider=draw.provider_class(env, cap=2))
    before = data.depth
    BC = need("hypothesis.control", "BuildContext")
    try:
        with BC(data, is_final=False):
            for i in range(2):
                data.start_span(1000 + i)
                data.draw(s, label=77)
                env.check(data.depth == before + 1, "a span is left open after drawing a value")
                data.stop_span()
    except (need("hypothesis.errors", "UnsatisfiedAssumption"), Oops):
        env.reach("ended")
        data.freeze()
        nested(env, data)
        return
    except Stop:
        env.reach("rejected")
        env.check(data.status is St.INVALID, "the test case ended otherwise")
        return
    data.freeze()
    outer = [x for x in data.spans if x.label in (1000, 1001)]
    env.check(len(outer) == 2 and outer[0].parent == outer[1].parent == 0, "the second value is inside a span of the first one")
    env.check(outer[0].start == 0 and outer[0].end == outer[1].start and outer[1].end == len(data.nodes), "a span has the wrong ends")
    nested(env, data)
    env.reach("drawn")


def nested(env, data):
    for x in data.spans:
        if x.parent is not None:
            p = data.spans[x.parent]
            env.check(p.start <= x.start <= x.end <= p.end, "a span lies outside its parent")


NAMES = (
    "booleans", "lists", "lists of some", "unique lists", "unique lists of samples", "all of the samples", "unique lists of filtered samples", "lists of samples unique by", "sets",
    "sets of samples", "dictionaries", "dictionaries of samples", "fixed dictionaries", "tuples", "one of", "filtered", "flat mapped", "iterables", "permutations", "recursive", "shared",
    "composite", "text of an alphabet", "deferred", "mapped to an error",
)  # fmt: skip
NF = KINDS[:4]
OBLIGATIONS = [
    *[Ob(f"replay {a}", replay, 40, kinds=(a,), opts=OPTS) for a in KINDS],
    *[Ob(f"replay {a}, {b}", replay, 40, tier="quick" if (i + j) % 3 == 0 and "float" not in (a, b) else "thorough", kinds=(a, b), opts=OPTS) for i, a in enumerate(KINDS) for j, b in enumerate(KINDS)],
    *[Ob(f"replay after an integer: {a} or {b}", branching, 40, tier="quick" if (i + j) % 4 == 0 and a != "string" else "thorough", first="integer", second=a, third=b, opts=OPTS) for i, a in enumerate(NF) for j, b in enumerate(NF)],
    *[Ob(f"any choice for {a}", prefix, 60, kinds=(a,), n=1, opts=OPTS) for a in KINDS],
    *[Ob(f"any choice for {a}, {b}", prefix, 150, tier="thorough", kinds=(a, b), n=1, opts=OPTS) for a in NF for b in NF],
    Ob("any choices for a boolean, bytes", prefix, 60, kinds=("boolean", "bytes"), n=2, opts=OPTS),
    Ob("any choices for an integer, a boolean", prefix, 60, tier="thorough", kinds=("integer", "boolean"), n=2, opts=OPTS),
    Ob("more choices than needed", prefix, 60, kinds=("boolean",), n=2, opts=OPTS),
    *[Ob(f"maximum number of choices, {n}", limits, 40, n=n, opts=OPTS) for n in (0, 1, 2, 3)],
    Ob("maximum size", real_size, 60, opts=OPTS),
    *[Ob(f"simplest {a}", simplest, 40, kinds=(a,), opts=OPTS) for a in KINDS],
    Ob("simplest bytes, boolean", simplest, 40, kinds=("bytes", "boolean"), opts=OPTS),
    *[Ob(f"spans of {n} steps", tree, 60, n=n, opts=OPTS) for n in (2, 3, 4)],
    Ob("spans of 5 steps", tree, 120, tier="thorough", n=5, opts=OPTS),
    *[Ob(f"spans of drawing {n}", balanced, 40, what=n, opts={"symset": True, "symdict": True}) for n in NAMES],
]
