"""C19: rewriting a filter never changes which values a strategy can produce."""

import ast
import functools
import linecache
import math
import operator

from symx.api import Ob, need, quick_plan

from checks import draw, fl

BOUNDS = (
    "integers(): unbounded bounds and unbounded integer constants, float constants of any bit pattern with bounds up to 2**70 in magnitude; "
    "floats(): all bit patterns of bounds and constants, integer constants up to 2**56 (thorough: 2**70) in magnitude and beyond the double range; "
    "dates(): all bounds and constants; lists/text/binary length predicates with sizes up to 4 (bounds up to 3); "
    "predicates: functools.partial of the five comparisons, lambdas and one-line functions comparing in both directions, chained, "
    "joined by 'and', with a part that is not understood, len() forms, math.isfinite/isinf/isnan, bool/len/list/tuple, and two filters in a row"
)
OUTSIDE = "Fraction and Decimal constants; str/bytes method filters and regular expressions; predicates beyond the listed forms"
ASSUMPTIONS = ["the primitive draws return any value within their requested constraints (decided by C06)"]
INT = {"ints": "int", "unhashable": True}
MIX = {"unhashable": True}
SET = {"unhashable": True, "symset": True}
FLT = {"logic": "QF_BV", "fp": "havoc", "unhashable": True}
OPS = {"lt": "<", "le": "<=", "eq": "==", "ge": ">=", "gt": ">"}
FLIP = {"lt": "gt", "le": "ge", "eq": "eq", "ge": "le", "gt": "lt"}
HOLD = 7770000000

# ---- predicates -----------------------------------------------------------


def literal(v):
    if isinstance(v, float) and math.isinf(v):
        return "1e999" if v > 0 else "-1e999"
    return repr(v)


class Source:
    """A function whose source text contains the constants ks.  Concretely this is that
    text; symbolically the constants of the parsed text are the symbolic values."""

    n = 0
    known = {}  # stand-in literal -> value

    def __init__(self, env, text, ks):
        self.env = env
        Source.n += 10
        fn = f"/nonexistent/symx_pred_{Source.n}.py"
        lits = [str(HOLD + Source.n + i) if env.symbolic else literal(k) for i, k in enumerate(ks)]
        self.known.update({HOLD + Source.n + i: k for i, k in enumerate(ks)})
        src = named = text
        for i, x in enumerate(lits):
            src = src.replace(f"K{i}", x)
        if not src.startswith("def"):
            src, named = "f = " + src, "f = " + named
        src += "\n"
        linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
        ns = {f"K{i}": k for i, k in enumerate(ks)}
        ns["__name__"] = "symx_pred"
        exec(compile(named + "\n", fn, "exec"), ns)
        self.f = ns["f"]

    def __enter__(self):
        self.parse = ast.parse
        if self.env.symbolic:
            def parse(*a, **k):
                t = self.parse(*a, **k)
                for node in ast.walk(t):
                    if isinstance(node, ast.Constant) and type(node.value) is int and node.value in self.known:
                        node.value = self.known[node.value]
                return t

            ast.parse = parse
        return self.f

    def __exit__(self, *a):
        ast.parse = self.parse


class Plain:
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        return self.f

    def __exit__(self, *a):
        pass


def holds(env, op, a, b):
    return {"lt": lambda: a < b, "le": lambda: a <= b, "eq": lambda: a == b, "ge": lambda: a >= b, "gt": lambda: a > b}[op]()


# form -> (number of constants, how to build, meaning)
TEXT = {
    **{f"x{o}K": (1, f"lambda x: x {s} K0", lambda e, x, k, o=o: holds(e, o, x, k[0])) for o, s in OPS.items()},
    **{f"K{o}x": (1, f"lambda x: K0 {s} x", lambda e, x, k, o=o: holds(e, o, k[0], x)) for o, s in OPS.items()},
    "def": (1, "def f(x): return x >= K0", lambda e, x, k: x >= k[0]),
    "def2": (1, "def f(x):\n    return x < K0", lambda e, x, k: x < k[0]),
    "ne": (1, "lambda x: x != K0", lambda e, x, k: e.Not(x == k[0])),
    "chain lt le": (2, "lambda x: K0 < x <= K1", lambda e, x, k: e.And(k[0] < x, x <= k[1])),
    "chain ge gt": (2, "lambda x: K0 >= x > K1", lambda e, x, k: e.And(k[0] >= x, x > k[1])),
    "and ge lt": (2, "lambda x: x >= K0 and x < K1", lambda e, x, k: e.And(x >= k[0], x < k[1])),
    "and gt gt": (2, "lambda x: x > K0 and x >= K1", lambda e, x, k: e.And(x > k[0], x >= k[1])),
    "and lt le": (2, "lambda x: x <= K0 and x < K1", lambda e, x, k: e.And(x <= k[0], x < k[1])),
    "and eq ge": (2, "lambda x: x == K0 and x >= K1", lambda e, x, k: e.And(x == k[0], x >= k[1])),
    "and ge ne": (2, "lambda x: x >= K0 and x != K1", lambda e, x, k: e.And(x >= k[0], e.Not(x == k[1]))),
    "chain lt ne": (2, "lambda x: K0 < x != K1", lambda e, x, k: e.And(k[0] < x, e.Not(x == k[1]))),
    "or": (2, "lambda x: x < K0 or x > K1", lambda e, x, k: e.Or(x < k[0], x > k[1])),
    "not": (1, "lambda x: not x < K0", lambda e, x, k: e.Not(x < k[0])),
    "len ge": (1, "lambda x: len(x) >= K0", lambda e, x, k: len(x) >= k[0]),
    "len lt": (1, "lambda x: len(x) < K0", lambda e, x, k: len(x) < k[0]),
    "len eq": (1, "lambda x: len(x) == K0", lambda e, x, k: len(x) == k[0]),
    "len chain": (2, "lambda x: K0 < len(x) <= K1", lambda e, x, k: e.And(k[0] < len(x), len(x) <= k[1])),
    "len ne": (2, "lambda x: len(x) >= K0 and len(x) != K1", lambda e, x, k: e.And(len(x) >= k[0], e.Not(len(x) == k[1]))),
}

# conjunctions of two comparisons with the same side of the value
AND2 = {
    f"and2 {a} {b}": (2, f"lambda x: x {OPS[a]} K0 and {'K1 ' + OPS[FLIP[b]] + ' x' if a == b else 'x ' + OPS[b] + ' K1'}",
                      lambda e, x, k, a=a, b=b: e.And(holds(e, a, x, k[0]), holds(e, b, x, k[1])))
    for side in (("lt", "le", "eq"), ("gt", "ge", "eq")) for a in side for b in side
}


def predicate(env, form, consts):
    """(context manager giving the predicate, its meaning)"""
    if form.startswith("p "):
        o = form[2:]
        k = consts(0)
        if o in ("min_len", "max_len"):
            f = need("hypothesis.internal.filtering", o)
            return Plain(functools.partial(f, k)), lambda x: (len(x) >= k) if o == "min_len" else (len(x) <= k)
        return Plain(functools.partial(getattr(operator, o), k)), lambda x: holds(env, o, k, x)
    if form in ("isfinite", "isinf", "isnan"):
        m = {
            "isfinite": lambda x: env.Not(env.Or(env.is_nan(x), env.is_inf(x))) if type(x) is float else True,
            "isinf": lambda x: env.is_inf(x) if type(x) is float else False,
            "isnan": lambda x: env.is_nan(x) if type(x) is float else False,
        }[form]
        return Plain(getattr(math, form)), m
    if form in ("bool", "len", "list", "tuple"):
        return Plain({"bool": bool, "len": len, "list": list, "tuple": tuple}[form]), lambda x: len(x) > 0
    n, text, f = TEXT[form] if form in TEXT else AND2[form]
    ks = [consts(i) for i in range(n)]
    for k in ks:
        if type(k) is float:
            env.assume(env.Not(env.is_nan(k)))
    return Source(env, text, ks), lambda x: f(env, x, ks)


def filtered(env, s, form, consts, then=None):
    ctx, meaning = predicate(env, form, consts)
    with ctx as p:
        s2 = s.filter(p)
        s2.validate()
    if then is not None:
        ctx2, m2 = predicate(env, then, lambda i: consts(i + 5))
        with ctx2 as p:
            s2 = s2.filter(p)
            s2.validate()
        return s2, lambda x: env.And(meaning(x), m2(x))
    return s2, meaning


# ---- the two obligations ----------------------------------------------------


def sound(env, mk, form, then=None, **kw):
    s, orig, consts, drawn = mk(env, **kw)
    if s is None:
        return
    s2, meaning = filtered(env, s, form, consts, then)
    o = draw.draw(env, s2, **drawn)
    if o.kind != "value":
        env.reach("no value")
        return
    env.reach("value")
    env.check(orig(o.value), "a filtered value which the strategy could not produce before")
    env.check(meaning(o.value), "a filtered value fails the predicate")


def complete(env, mk, target, form, then=None, **kw):
    s, orig, consts, drawn = mk(env, **kw)
    if s is None:
        return
    t = target(env)
    s2, meaning = filtered(env, s, form, consts, then)
    env.assume(orig(t))
    env.assume(meaning(t))
    CD = need("hypothesis.internal.conjecture.data", "ConjectureData")
    StopTest = need("hypothesis.errors", "StopTest")
    env.reach("satisfying value")
    lost = "a value that satisfies the filter became impossible"

    class Fixed(draw.provider_class(env)):
        k = 0

        def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0, **kw):
            v = t
            if not isinstance(t, int):
                v = (t.year, t.month, t.day)[self.k % 3]
                self.k += 1
            env.check(env.And(*([] if min_value is None else [min_value <= v]), *([] if max_value is None else [v <= max_value])), lost)
            return v

        def draw_float(self, min_value=-math.inf, max_value=math.inf, *, allow_nan=True, smallest_nonzero_magnitude=5e-324, **kw):
            env.check(fl.permitted(env, t, min_value, max_value, allow_nan, smallest_nonzero_magnitude), lost)
            return t

        def draw_bytes(self, min_size=0, max_size=10**10, **kw):
            env.check(env.And(min_size <= len(t), len(t) <= max_size), lost)
            return t

        def draw_string(self, intervals, *, min_size=0, max_size=10**10, **kw):
            env.check(env.And(min_size <= len(t), len(t) <= max_size), lost)
            return t

    d = CD(random=None, provider=Fixed)
    try:
        v = d.draw(s2)
    except StopTest:
        env.check(False, lost)
        return
    env.check(env.same(v, t) if isinstance(t, float) else v == t, "the chosen value is not the value drawn")


# ---- strategies -------------------------------------------------------------


def integers(env, bounds, const, wide=None):
    ints = need("hypothesis.strategies", "integers")
    rng = dict(lo=-wide, hi=wide) if wide else {}
    lo = env.int("lo", **rng) if "l" in bounds else None
    hi = env.int("hi", **rng) if "h" in bounds else None
    if bounds == "lh":
        env.assume(lo <= hi)
    s = ints(lo, hi)
    s.validate()

    def orig(v):
        return env.And(type(v) is int, *([] if lo is None else [lo <= v]), *([] if hi is None else [v <= hi]))

    def consts(i):
        if const == "int":
            return env.int(f"k{i}", **rng)
        k = env.float(f"k{i}")
        if const == "float":  # larger ones: thorough tier
            env.assume(env.Or(env.is_nan(k), env.is_inf(k), env.And(k > -(2.0**60), k < 2.0**60)))
        return k

    return s, orig, consts, dict(int_cap=None if not wide else 1 << 1040)


def int_target(wide=None):
    return lambda env: env.int("t", *((-wide, wide) if wide else ()))


def floats(env, bounds, const, sub=None, nan=None):
    F = need("hypothesis.strategies", "floats")
    lo = env.float("lo") if "l" in bounds else None
    hi = env.float("hi") if "h" in bounds else None
    s = draw.build(env, lambda: F(lo, hi, allow_subnormal=sub, allow_nan=nan))
    if s is None:
        return None, None, None, None
    sn = fl.snormal(64) if sub is False else 5e-324
    alo = -math.inf if lo is None else lo
    ahi = math.inf if hi is None else hi
    allow_nan = nan if nan is not None else not bounds

    def orig(v):
        return env.And(type(v) is float, fl.permitted(env, v, alo, ahi, allow_nan, sn))

    def consts(i):
        if const == "int":
            return env.int(f"k{i}", -(1 << 56), 1 << 56)
        if const == "long":
            return env.int(f"k{i}", -(1 << 70), 1 << 70)
        if const == "huge":
            v = env.int(f"k{i}", 1 << 1024, 1 << 1030)
            return -v if env.choose("neg", 2) else v
        return env.float(f"k{i}")

    return s, orig, consts, {}


def dates(env, bounds="lh"):
    D = need("hypothesis.strategies", "dates")
    lo, hi = env.date("lo"), env.date("hi")
    env.assume(lo <= hi)
    s = D(lo, hi)
    s.validate()
    return s, (lambda v: env.And(lo <= v, v <= hi)), (lambda i: env.date(f"k{i}")), {}


def sized(env, kind, bounded):
    st = need("hypothesis.strategies")
    listy = kind in ("lists", "sets")
    size = (lambda n, k: env.choose(n, k + 1)) if listy else (lambda n, k: env.int(n, 0, k))
    lo = size("lo", 2)
    hi = size("hi", 3) if bounded else None
    if bounded:
        env.assume(lo <= hi)
    if kind == "lists":
        s = st.lists(st.integers(), min_size=lo, max_size=hi)
    elif kind == "sets":
        s = st.lists(st.integers(), min_size=lo, max_size=hi, unique=True)
    elif kind == "text":
        s = st.text("ab", min_size=lo, max_size=hi)
    else:
        s = st.binary(min_size=lo, max_size=hi)
    s.validate()

    def orig(v):
        return env.And(lo <= len(v), *([] if hi is None else [len(v) <= hi]))

    return s, orig, (lambda i: size(f"k{i}", 4) - (0 if listy else 1)), dict(max_choices=12 if not listy else 8)


def seq_target(kind):
    def t(env):
        n = env.choose("size", 5)
        if kind == "binary":
            return env.bytes("t", n)
        return env.str("t", n, lo=97, hi=98)

    return t


PART = [f"p {o}" for o in OPS]
ONE = [f for f in TEXT if not f.startswith("len") and TEXT[f][0] == 1]
TWO = [f for f in TEXT if not f.startswith("len") and TEXT[f][0] == 2]
LEN = ["p min_len", "p max_len", *[f for f in TEXT if f.startswith("len")]]
NONEMPTY = ["bool", "len", "list", "tuple"]
WIDE = 1 << 70


def both(name, mk, target, forms, opts, tier="quick", comp=True, thens=(None,), budget=40, **kw):
    for form in forms:
        for then in thens:
            n = f"{name} {form}" + (f" then {then}" if then else "")
            yield Ob("sound " + n, sound, mk=mk, form=form, then=then, opts=opts, tier=tier, budget=budget, **kw)
            if comp:
                yield Ob("complete " + n, complete, mk=mk, target=target, form=form, then=then, opts=opts, tier=tier, budget=budget, **kw)


def ft(env):
    return env.float("t")


def ints_(b, forms, tier="quick", const="int", **kw):
    if const == "int":
        return both(f"int {b or 'any'} int", integers, int_target(), forms, INT, tier, bounds=b, const="int", **kw)
    return both(f"int {b or 'any'} {const}", integers, int_target(WIDE), forms, MIX, tier, bounds=b, const=const, wide=WIDE, **kw)


def floats_(b, forms, tier="quick", const="float", tag="", **kw):
    return both(f"float {b or 'any'} {const}{tag}", floats, ft, forms, FLT, tier, bounds=b, const=const, **kw)


OBLIGATIONS = [
    *[o for b in ("", "l", "h", "lh") for o in ints_(b, PART)],
    *ints_("", ONE + TWO),
    *ints_("", list(AND2)),
    *floats_("", list(AND2), "thorough"),
    *ints_("lh", TWO),
    *[o for b, fs in (("l", ONE + TWO), ("h", ONE + TWO), ("lh", ONE)) for o in ints_(b, fs, "thorough")],
    *ints_("", PART + ["xleK", "Kltx"], const="float"),
    *ints_("lh", ["p lt", "p ge", "p eq"], const="float"),
    *[o for b in ("", "lh") for o in ints_(b, PART + ["xleK", "Kltx"], "thorough", const="any float")],
    *ints_("lh", ["isfinite", "isinf", "isnan"], comp=False),
    *both("int lh two", integers, int_target(), ["p lt", "ne", "chain lt le"], INT, thens=("ne", "xleK"), bounds="lh", const="int"),
    *floats_("", PART + ["xltK", "xleK", "Kltx", "not", "chain lt le"]),
    *floats_("l", PART),
    *floats_("h", PART),
    *floats_("lh", ["p le", "p eq"], budget=100),
    *floats_("lh", [p for p in PART if p not in ("p le", "p eq")] + ["xltK", "Kltx", "chain lt le"], "thorough"),
    *[o for b in ("l", "h") for o in floats_(b, ["xltK", "xleK", "Kltx", "not", "chain lt le"], "thorough")],
    *floats_("", ["p lt", "p ge"], const="int"),
    *floats_("", ["p le", "p gt", "p eq"], "thorough", const="int"),
    *[o for b in ("", "l", "h", "lh") for o in floats_(b, PART, "thorough", const="long")],
    *floats_("", PART, const="huge"),
    *floats_("", PART, tag=" nosub", sub=False),
    *floats_("l", ["p lt", "p ge"], tag=" nosub", sub=False),
    *[o for b in ("h", "lh") for o in floats_(b, PART, "thorough", tag=" nosub", sub=False)],
    *[o for b in ("", "l", "lh") for o in floats_(b, ["isfinite"])],
    *[o for b in ("", "l") for o in floats_(b, ["isnan", "isinf"], comp=False)],
    *both("date", dates, lambda e: e.date("t"), PART, MIX, bounds="lh"),
    *[o for k in ("text", "binary") for b in (False, True) for o in both(f"{k} {b:d}", sized, seq_target(k), LEN + NONEMPTY, MIX, "thorough" if k == "text" and b else "quick", kind=k, bounded=b)],
    *[o for k in ("lists", "sets") for b in (False, True) for o in both(f"{k} {b:d}", sized, None, LEN + NONEMPTY, SET, comp=False, kind=k, bounded=b)],
]

quick_plan(
    OBLIGATIONS,
    deep={
        "complete float l float p lt",
        "complete float h float p gt",
        "sound float any int p lt",
        "complete float any int p ge",
        "sound float l float nosub p lt",
        "complete text 0 p max_len",
        "complete text 0 len lt",
        "sound text 0 len eq",
        "complete text 0 len ne",
        "sound binary 0 len chain",
        "complete binary 0 len chain",
        "complete binary 1 len chain",
        "complete binary 1 len ne",
        "sound float lh float p eq",
        "sound float any int p ge",
        "complete float any int p lt",
        "complete float lh float p eq",
        "complete float lh float p le",
        "sound text 0 len chain",
        "sound text 0 len ne",
        "complete text 0 len chain",
        "sound sets 1 len chain",
        "sound sets 1 len ne",
        "sound sets 0 len chain",
        "complete text 0 len eq",
    },
)
