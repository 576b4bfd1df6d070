"""C22: generated dates, times and durations lie within their bounds."""

import datetime as dt

from symx.api import Ob, need

from checks import draw

BOUNDS = "all pairs of bounds over the whole calendar (years 1-9999), clock and timedelta range, including absent bounds; all component choices"
OUTSIDE = "time zones (naive values, or a fixed UTC timezone for times); bounds of other types; imaginary-time rejection"
ASSUMPTIONS = ["the primitive integer draw returns any integer within its requested bounds (decided by C06)"]
OPTS = {"unhashable": True}

KINDS = {
    "date": ("dates", dt.date, ("year", "month", "day")),
    "time": ("times", dt.time, ("hour", "minute", "second", "microsecond")),
    "datetime": ("datetimes", dt.datetime, ("year", "month", "day", "hour", "minute", "second", "microsecond")),
    "timedelta": ("timedeltas", dt.timedelta, ("days", "seconds", "microseconds")),
}


def lex_le(env, a, b, fields):
    """a <= b, from the definition: the first differing component decides"""
    r = True
    for f in reversed(fields):
        x, y = getattr(a, f), getattr(b, f)
        r = env.Or(x < y, env.And(x == y, r))
    return r


def setup(env, kind, form):
    name, typ, fields = KINDS[kind]
    strat = need("hypothesis.strategies", name)
    lo = getattr(env, kind)("lo") if "l" in form else None
    hi = getattr(env, kind)("hi") if "h" in form else None
    kw = {}
    if lo is not None:
        kw["min_value"] = lo
    if hi is not None:
        kw["max_value"] = hi
    return strat, typ, fields, lo, hi, kw


def within(env, v, lo, hi, fields):
    return env.And(
        *([] if lo is None else [lex_le(env, lo, v, fields)]),
        *([] if hi is None else [lex_le(env, v, hi, fields)]),
    )


def values(env, kind, form, tz=False):
    strat, typ, fields, lo, hi, kw = setup(env, kind, form)
    if tz:
        kw["timezones"] = need("hypothesis.strategies", "just")(dt.timezone.utc)
    s = draw.build(env, lambda: strat(**kw))
    if s is None:
        env.check(form == "lh" and env.Not(lex_le(env, lo, hi, fields)), "satisfiable bounds were rejected")
        return
    if form == "lh":
        env.check(lex_le(env, lo, hi, fields), "bounds that admit no value were accepted")
    o = draw.draw(env, s)
    env.check(o.kind == "value", "drawing failed")
    env.reach("value")
    v = o.value
    env.check(type(v) is typ, "wrong type of value")
    env.check(within(env, v, lo, hi, fields), "value outside the bounds")
    if kind in ("time", "datetime"):
        env.check(v.tzinfo is (dt.timezone.utc if tz else None), "wrong timezone")


def reachable(env, kind, form):
    """every value between the bounds is drawn when its components are chosen in order"""
    strat, typ, fields, lo, hi, kw = setup(env, kind, form)
    t = getattr(env, kind)("t")
    env.assume(within(env, t, lo, hi, fields))
    CD = need("hypothesis.internal.conjecture.data", "ConjectureData")
    s = strat(**kw)
    seen = []

    class Fixed(draw.provider_class(env)):
        def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0, **kw):
            if len(seen) >= len(fields):
                return min_value
            v = getattr(t, fields[len(seen)])
            seen.append(v)
            env.check(env.And(min_value <= v, v <= max_value), "a component of a value within the bounds cannot be chosen")
            return v

    d = CD(random=None, provider=Fixed)
    v = d.draw(s)
    env.reach("drawn")
    env.check(env.And(*[getattr(v, f) == getattr(t, f) for f in fields]), "the chosen value is not the value drawn")


FORMS = ("", "l", "h", "lh")
OBLIGATIONS = [
    *[Ob(f"{k} values {f or 'unbounded'}", values, kind=k, form=f, opts=OPTS) for k in KINDS for f in FORMS],
    Ob("time values lh utc", values, kind="time", form="lh", tz=True, opts=OPTS),
    Ob("datetime values lh utc", values, kind="datetime", form="lh", tz=True, opts=OPTS),
    *[Ob(f"{k} reachable {f or 'unbounded'}", reachable, kind=k, form=f, opts=OPTS) for k in KINDS for f in FORMS],
]
