"""C18: floats() yields only floats its arguments allow, at the requested width."""

import math

from symx.api import Ob, need, quick_plan

from checks import draw, fl

BOUNDS = (
    "all bit patterns of zero, one or two bounds given as doubles (at width 16 and 32 also bounds that are not representable), "
    "all combinations of exclude_min, exclude_max, allow_nan, allow_infinity, allow_subnormal (each absent, False or True), "
    "widths 16, 32, 64; all bit patterns of the drawn value (quick tier, widths 16 and 32 with two bounds or with allow_subnormal/allow_infinity given: drawn values of that width)"
)
OUTSIDE = "bounds that are not floats (ints, Fractions, Decimals)"
ASSUMPTIONS = [
    "the primitive float draw returns any float permitted by its constraints (decided by C06); the check shows that the "
    "constraints passed down always admit at least one value"
]
OPTS = {"logic": "QF_BV", "fp": "havoc", "unhashable": True}
TRI = (None, False, True)


def values(env, width, form, nan, inf, excl=None, subs=TRI, rep=False, drawn=64):
    floats = need("hypothesis.strategies", "floats")
    IA = need("hypothesis.errors", "InvalidArgument")
    bound = (lambda n: fl.of_width(env, n, width)) if rep else env.float
    lo = bound("lo") if "l" in form else None
    hi = bound("hi") if "h" in form else None
    if excl is None:
        xlo = bool(env.choose("exclude_min", 2))
        xhi = bool(env.choose("exclude_max", 2))
    else:
        xlo, xhi = excl
    sub = env.options("allow_subnormal", subs)
    kw = dict(allow_nan=nan, allow_infinity=inf, allow_subnormal=sub, width=width, exclude_min=xlo, exclude_max=xhi)
    sn = fl.snormal(width)
    tiny = {64: 5e-324, 32: 2.0**-149, 16: 2.0**-24}[width]

    def above(v):  # v satisfies the lower bound
        if lo is None:
            return True
        c = v >= lo
        if xlo:
            return v > lo
        return env.And(c, env.Not(env.And(lo == 0.0, fl.lt(env, v, lo))))

    def below(v):
        if hi is None:
            return True
        if xhi:
            return v < hi
        return env.And(v <= hi, env.Not(env.And(hi == 0.0, fl.lt(env, hi, v))))

    def allowed(v, subnormals):
        """what the arguments say about a value that is not a NaN"""
        c = [env.Not(fl.isnan(env, v)), above(v), below(v), fl.representable(env, v, width)]
        if inf is False:
            c.append(env.Not(env.is_inf(v)))
        if not subnormals:
            c.append(env.Or(v == 0.0, v >= sn, v <= -sn))
        return env.And(*c)

    try:
        s = floats(lo, hi, **kw)
        s.validate()
    except (IA, OverflowError):
        env.reach("rejected")
        # never a rejection of arguments that are fine: take any witness value and any reason listed in the documentation
        w = env.float("w")
        reasons = []
        for b, x in ((lo, xlo), (hi, xhi)):
            if b is None:
                if x:
                    reasons.append(True)
                continue
            reasons.append(fl.isnan(env, b))
            reasons.append(env.Not(fl.representable(env, b, width)))
        if nan and (lo is not None or hi is not None):
            reasons.append(True)
        if lo is not None and xlo:
            reasons.append(lo == math.inf)
        if hi is not None and xhi:
            reasons.append(hi == -math.inf)
        if inf and lo is not None and hi is not None:
            reasons.append(env.And(env.Or(lo != -math.inf, xlo), env.Or(hi != math.inf, xhi)))
        if sub:
            # no subnormal lies between the bounds
            if lo is not None:
                reasons.append(lo >= sn if not xlo else lo >= sn - tiny)
            if hi is not None:
                reasons.append(hi <= -sn if not xhi else hi <= -(sn - tiny))
        if inf is False and lo is not None:
            reasons.append(env.Or(lo == math.inf, env.And(xlo, lo == fl.largest(width))))
        if inf is False and hi is not None:
            reasons.append(env.Or(hi == -math.inf, env.And(xhi, hi == -fl.largest(width))))
        bad = env.Or(*reasons)
        env.check(env.Implies(allowed(w, sub is not False), bad), "arguments that admit a value were rejected")
        return
    env.reach("accepted")
    if lo is not None:
        env.check(env.And(env.Not(fl.isnan(env, lo)), fl.representable(env, lo, width)), "a bound that is NaN or not representable was accepted")
    if hi is not None:
        env.check(env.And(env.Not(fl.isnan(env, hi)), fl.representable(env, hi, width)), "a bound that is NaN or not representable was accepted")
    o = draw.draw(env, s, float_width=drawn)
    if o.kind != "value":
        env.check(width < 64, "drawing a float failed")
        return
    v = o.value
    env.reach("value")
    env.check(type(v) is float, "the value is not a float")
    isn = fl.isnan(env, v)
    nan_ok = nan if nan is not None else lo is None and hi is None
    if not nan_ok:
        env.check(env.Not(isn), "NaN although it is not allowed")
    env.check(env.Or(isn, fl.representable(env, v, width)), "the value is not representable at the width")
    env.check(env.Or(isn, above(v)), "the value is below the lower bound")
    env.check(env.Or(isn, below(v)), "the value is above the upper bound")
    if inf is False:
        env.check(env.Not(env.is_inf(v)), "infinity although it is not allowed")
    if sub is False:
        env.check(env.Or(isn, v == 0.0, v >= sn, v <= -sn), "a subnormal value although they are not allowed")


YN = (False, True)


def forms(w, f, subs, infs, nans, tier, rep, drawn=64):
    for n in nans:
        for i in infs:
            for sub in subs:
                for xl in YN if "l" in f else (False,):
                    for xh in YN if "h" in f else (False,):
                        yield Ob(
                            f"w{w} {f} nan={n} inf={i} subnormal={sub} exclude={xl:d}{xh:d}" + ("" if rep else " any") + ("" if drawn == 64 else " narrow"),
                            values, width=w, form=f, nan=n, inf=i, excl=(xl, xh), subs=(sub,), rep=rep, drawn=drawn, opts=OPTS, tier=tier, budget=80 if xl and xh else 40,
                        )


OBLIGATIONS = [
    *[
        Ob(f"w{w} {f or 'unbounded'} nan={n} inf={i}", values, width=w, form=f, nan=n, inf=i, opts=OPTS)
        for w in (64, 32, 16)
        for f in (("", "l", "h") if w == 64 else ("",))
        for n in TRI
        for i in TRI
        if not (n and f and i is not None)
    ],
    *[o for o in forms(64, "lh", TRI, TRI, (None,), "quick", False) if o.params["inf"] is not True or o.params["excl"] != (True, True)],
    *[o for o in forms(64, "lh", TRI, (True,), (None,), "thorough", False) if o.params["excl"] == (True, True)],
    # narrow widths: quick with drawn values of that width, thorough with all drawn doubles
    *[o for w in (32, 16) for f in ("l", "h") for o in forms(w, f, TRI, TRI, (None,), "quick", True, w)],
    *[o for f in ("lh",) for o in forms(16, f, TRI, TRI, (None,), "quick", True, 16)],
    *[o for o in forms(32, "lh", TRI, (None,), (None,), "quick", True, 32) if o.params["excl"] != (True, True)],
    *[o for o in forms(32, "lh", TRI, TRI, (None,), "thorough", True, 32) if o.params["inf"] is not None or o.params["excl"] == (True, True)],
    *[o for w in (32, 16) for f in ("l", "h") for o in forms(w, f, (None,), (None, False), (None,), "quick", True)],
    *[o for w in (32, 16) for f in ("l", "h", "lh") for o in forms(w, f, TRI, TRI, (None, False), "thorough", False)],
]

quick_plan(
    OBLIGATIONS,
    deep={
        "w64 lh nan=None inf=None subnormal=None exclude=11 any",
        "w64 lh nan=None inf=None subnormal=True exclude=01 any",
        "w64 lh nan=None inf=None subnormal=True exclude=10 any",
        "w64 lh nan=None inf=False subnormal=None exclude=00 any",
        "w64 lh nan=None inf=False subnormal=None exclude=01 any",
        "w64 lh nan=None inf=False subnormal=None exclude=10 any",
        "w64 lh nan=None inf=False subnormal=False exclude=01 any",
        "w64 lh nan=None inf=False subnormal=False exclude=10 any",
        "w64 lh nan=None inf=False subnormal=True exclude=01 any",
        "w64 lh nan=None inf=False subnormal=True exclude=10 any",
        "w64 lh nan=None inf=True subnormal=True exclude=01 any",
        "w64 lh nan=None inf=True subnormal=True exclude=10 any",
        "w32 l nan=None inf=False subnormal=None exclude=10 narrow",
        "w32 l nan=None inf=False subnormal=False exclude=10 narrow",
        "w32 l nan=None inf=False subnormal=True exclude=10 narrow",
        "w16 lh nan=None inf=None subnormal=True exclude=01 narrow",
        "w16 lh nan=None inf=None subnormal=True exclude=10 narrow",
        "w16 lh nan=None inf=None subnormal=True exclude=11 narrow",
        "w16 lh nan=None inf=False subnormal=None exclude=01 narrow",
        "w16 lh nan=None inf=False subnormal=None exclude=10 narrow",
        "w16 lh nan=None inf=False subnormal=False exclude=01 narrow",
        "w16 lh nan=None inf=False subnormal=False exclude=10 narrow",
        "w16 lh nan=None inf=False subnormal=False exclude=11 narrow",
        "w16 lh nan=None inf=False subnormal=True exclude=01 narrow",
        "w16 lh nan=None inf=False subnormal=True exclude=10 narrow",
        "w16 lh nan=None inf=False subnormal=True exclude=11 narrow",
        "w16 lh nan=None inf=True subnormal=True exclude=11 narrow",
        "w32 lh nan=None inf=None subnormal=True exclude=01 narrow",
        "w32 lh nan=None inf=None subnormal=True exclude=10 narrow",
        "w32 l nan=None inf=False subnormal=None exclude=00",
        "w32 h nan=None inf=False subnormal=None exclude=00",
        "w16 l nan=None inf=False subnormal=None exclude=00",
        "w16 l nan=None inf=False subnormal=None exclude=10",
        "w16 h nan=None inf=False subnormal=None exclude=00",
        "w16 h nan=None inf=False subnormal=None exclude=01",
        "w64 lh nan=None inf=False subnormal=None exclude=11 any",
        "w64 lh nan=None inf=False subnormal=False exclude=11 any",
        "w64 lh nan=None inf=None subnormal=False exclude=11 any",
        "w64 lh nan=None inf=False subnormal=True exclude=11 any",
        "w64 lh nan=None inf=None subnormal=True exclude=11 any",
        "w32 h nan=None inf=False subnormal=None exclude=01",
        "w32 l nan=None inf=False subnormal=None exclude=10",
        "w16 lh nan=None inf=False subnormal=None exclude=11 narrow",
        "w32 lh nan=None inf=None subnormal=None exclude=10 narrow",
    },
)
