"""C17: integers() yields exactly the integers within its bounds."""

from symx.api import Ob, need

from checks import draw

BOUNDS = "bounds and choices of unbounded magnitude, one-sided and absent bounds, bounds given as integral floats or booleans excluded"
OUTSIDE = "bounds that are not ints"
ASSUMPTIONS = ["the primitive integer draw returns any integer within its requested bounds (decided by C06)"]
INT = {"ints": "int", "unhashable": True}


def bounds(env, form):
    lo = env.int("lo") if "l" in form else None
    hi = env.int("hi") if "h" in form else None
    return lo, hi


def within(env, v, lo, hi):
    return env.And(*([] if lo is None else [v >= lo]), *([] if hi is None else [v <= hi]))


def values(env, form):
    ints = need("hypothesis.strategies", "integers")
    lo, hi = bounds(env, form)
    s = draw.build(env, lambda: ints(lo, hi))
    if s is None:
        env.check(form == "lh" and lo > hi, "satisfiable bounds were rejected")
        return
    if form == "lh":
        env.check(lo <= hi, "bounds that admit no value were accepted")
    o = draw.draw(env, s)
    env.check(o.kind == "value", "drawing an integer failed")
    env.reach("value")
    env.check(type(o.value) is int, "the value is not an int")
    env.check(within(env, o.value, lo, hi), "value out of bounds")


def reachable(env, form):
    """every integer within the bounds is produced by some choice"""
    ints = need("hypothesis.strategies", "integers")
    CD, CT = need("hypothesis.internal.conjecture.data", "ConjectureData"), None
    lo, hi = bounds(env, form)
    t = env.int("t")
    env.assume(within(env, t, lo, hi))
    s = ints(lo, hi)
    seen = []

    class Fixed(draw.provider_class(env)):
        def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0, **kw):
            seen.append(1)
            env.check(within(env, t, min_value, max_value), "a value within the bounds cannot be chosen")
            return t

    d = CD(random=None, provider=Fixed)
    env.reach("drawn")
    env.check(d.draw(s) == t, "the chosen value is not the value drawn")


def simplest(env, form):
    ints = need("hypothesis.strategies", "integers")
    CD = need("hypothesis.internal.conjecture.data", "ConjectureData")
    CFI = need("hypothesis.internal.conjecture.choice", "choice_from_index")
    lo, hi = bounds(env, form)
    if form == "lh":
        env.assume(lo <= hi)
    s = ints(lo, hi)

    class Simplest(draw.provider_class(env)):
        def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0, **kw):
            return CFI(0, "integer", dict(min_value=min_value, max_value=max_value, weights=weights, shrink_towards=shrink_towards))

    v = CD(random=None, provider=Simplest).draw(s)
    want = 0
    if hi is not None:
        want = env.ite(hi < 0, hi, want)
    if lo is not None:
        want = env.ite(lo > 0, lo, want)
    env.reach("simplest")
    env.check(v == want, "the simplest integer is not the one nearest zero")


OBLIGATIONS = [
    *[Ob(f"values {f or 'unbounded'}", values, form=f, opts=INT) for f in ("", "l", "h", "lh")],
    *[Ob(f"reachable {f or 'unbounded'}", reachable, form=f, opts=INT) for f in ("", "l", "h", "lh")],
    *[Ob(f"simplest {f or 'unbounded'}", simplest, form=f, opts=INT) for f in ("", "l", "h", "lh")],
]
