"""C23: fractions(), decimals() and complex_numbers() respect their bounds."""

import math
from decimal import Decimal, localcontext
from fractions import Fraction

from symx.api import Ob, need, quick_plan

from checks import draw, fl

BOUNDS = (
    "fractions: all bounds with denominators up to 3 and numerators up to 4 in magnitude, 2 if both are given (thorough: 5 / 8, 4), "
    "max_denominator absent or up to 4 (7), drawn denominators up to 5-9 (12-24), all numerators; decimals: a table of bounds (including ones with more digits than places) "
    "x places absent/0-3, drawn numerators up to 10**6 wide ranges and denominators up to 12 (40); complex numbers: a table of magnitudes "
    "and components at each width, all real parts; cathetus: all pairs of doubles for the classification"
)
OUTSIDE = "bounds and denominators beyond the tables; the rounding error of the system square root"
ASSUMPTIONS = [
    "the primitive draws return any value within their requested constraints (decided by C06)",
    "decimal.Context operations are correctly rounded and math.log10 does not cross an integer (models of the C library)",
]
OPTS = {"unhashable": True, "ints": "int", "enum_cap": 4096}


def strategies():
    return need("hypothesis.strategies")


# -- fractions ----------------------------------------------------------------


def rationals(n, d):
    return sorted({Fraction(a, b) for a in range(-n, n + 1) for b in range(1, d + 1)})


def fractions_(env, form, big=False, md=None):
    two = "lh" in form
    table = (rationals(4, 4) if two else rationals(8, 5)) if big else rationals(2, 3) if two else rationals(4, 3)
    kw = {}
    lo = hi = None
    if "l" in form:
        lo = env.options("lo", table)
        kw["min_value"] = lo
    if "h" in form:
        hi = env.options("hi", table)
        kw["max_value"] = hi
    md = md if md is not None else env.choose("max_denominator", 8 if big else 5) if "d" in form else None
    if md is not None:
        kw["max_denominator"] = md
    s = draw.build(env, lambda: strategies().fractions(**kw))
    sat = not (lo is not None and hi is not None and lo > hi) and (md is None or md >= 1 and all(b is None or b.denominator <= md for b in (lo, hi)))
    if s is None:
        env.check(not sat, "satisfiable bounds were rejected")
        return
    env.check(sat, "bounds that cannot be met were accepted")
    o = draw.draw(env, s, int_cap=(12 if two else 24) if big else 5 if two else 9)
    env.check(o.kind == "value", "drawing failed")
    env.reach("value")
    v = o.value
    env.check(isinstance(v, Fraction), "not a Fraction")
    if lo is not None:
        env.check(v >= lo, "below the minimum")
    if hi is not None:
        env.check(v <= hi, "above the maximum")
    if md is not None:
        env.check(v.denominator <= md, "the denominator is too large")


# -- decimals -----------------------------------------------------------------

DEC = ["0", "-1.25", "3", "0.1200000001", "0.1299999", "-0.0049", "99.95", "1e3", "-7e-3", "0.666666667", "123456.789"]


SOME = ["0", "0.667", "-1.25", "12.4"]


def bound(env, name, form, k, table):
    if k not in form:
        return None
    return Decimal(env.options(name, table))


def decimals(env, form, places, big=False, ambient=28, special=False):
    table = SOME[:2] if special else SOME if places is None and form == "lh" and not big else DEC
    lo, hi = bound(env, "lo", form, "l", table), bound(env, "hi", form, "h", table)
    kw = {k: v for k, v in (("min_value", lo), ("max_value", hi), ("places", places)) if v is not None}
    nan = inf = False
    if special:
        nan, inf = env.options("allow_nan", (None, False)), env.options("allow_infinity", (None, False))
    if nan is not None:
        kw["allow_nan"] = nan
    if inf is not None:
        kw["allow_infinity"] = inf
    with localcontext() as c:
        c.prec = ambient
        s = draw.build(env, lambda: strategies().decimals(**kw))
        if lo is None or hi is None:
            sat = True
        elif places is None:
            sat = lo <= hi
        else:
            f = 10**places
            sat = lo <= hi and math.ceil(Fraction(lo) * f) <= math.floor(Fraction(hi) * f)
        if s is None:
            env.check(not sat, "satisfiable bounds were rejected")
            return
        env.check(sat, "bounds that cannot be met were accepted")
        o = draw.draw(env, s, int_cap=(24 if big else 2 if special else 4) if places is None else 10**6)
    env.check(o.kind == "value", "drawing failed")
    env.reach("value")
    v = o.value
    env.check(isinstance(v, Decimal), "not a Decimal")
    if v.is_nan():
        env.check(nan is not False and (lo is None or hi is None), "NaN although it is not allowed")
        return
    if v.is_infinite():
        env.check(inf is not False and (hi if v > 0 else lo) is None, "an infinity although it is not allowed")
        return
    if lo is not None:
        env.check(v >= lo, "below the minimum")
    if hi is not None:
        env.check(v <= hi, "above the maximum")
    if places is not None:
        env.check(v.as_tuple().exponent == -places, "wrong number of places")


def decimals_huge(env):
    """bounds far outside the range of floats"""
    k = env.choose("k", 3)
    lo, hi = [("-1e400", "1e400"), ("1e-400", "1"), ("0", "1e-400")][k]
    p = env.options("places", (0, 2))
    s = draw.build(env, lambda: strategies().decimals(Decimal(lo), Decimal(hi), places=p))
    env.check(s is not None, "satisfiable bounds were rejected")


# -- complex numbers ----------------------------------------------------------

MAGS = {32: [0, 0.3, 1, 70000, 2.0**-24, 1e-9, 6.1e-5], 64: [0, 0.3, 1, 1e39, 1e-46, 3.4e38], 128: [0, 0.3, 1, 1e300, 5e-324, 1.7e308, 2]}
FORMAT = {16: ("e", 2.0**-24, 11), 32: ("f", 2.0**-149, 24), 64: ("d", 5e-324, 53)}


def largest(w):
    return {16: 65504.0, 32: (2 - 2.0**-23) * 2.0**127, 64: 1.7976931348623157e308}[w]


def isqrt_float(fr, up):
    """a double at most (at least) the square root of a rational"""
    if fr <= 0:
        return 0.0
    k = 1 << 1300
    r = math.isqrt(fr.numerator * k * k // fr.denominator)
    q = Fraction(r + (1 if up else 0), k)
    try:
        f = float(q)
    except OverflowError:
        return math.inf if up else 1.7976931348623157e308
    while Fraction(f) < q if up else Fraction(f) > q:
        f = math.nextafter(f, math.inf if up else 0.0)
        if f == math.inf:
            break
    return f


def complexes(env, width, form):
    import struct

    w = width // 2
    fmt, tiny, prec = FORMAT[w]
    lo = env.options("min_magnitude", MAGS[width]) if "l" in form else 0
    hi = env.options("max_magnitude", MAGS[width]) if "h" in form else None
    sub = env.options("allow_subnormal", (True, False)) if "s" in form else True
    kw = dict(width=width)
    if "l" in form:
        kw["min_magnitude"] = lo
    if "h" in form:
        kw["max_magnitude"] = hi
    if not sub:
        kw["allow_subnormal"] = False
    if hi is not None and lo > hi:
        env.check(draw.build(env, lambda: strategies().complex_numbers(**kw)) is None, "bounds that cannot be met were accepted")
        return
    # does any value of this width meet the bounds, up to rounding?
    if lo > largest(w):
        return
    s = draw.build(env, lambda: strategies().complex_numbers(**kw))
    env.check(s is not None, "satisfiable bounds were rejected")

    def at_width(x):
        try:
            return struct.unpack("!" + fmt, struct.pack("!" + fmt, float(x)))[0]
        except OverflowError:
            return largest(w)

    ref = hi if hi is not None else lo or 1.0
    cands = sorted({at_width(f) for x in (ref, lo) for f in (0.0, x, x / 2, x * 0.99, -x, math.nextafter(x, 0), x * (1 - 2.0 ** -(prec - 1)), 3 * x)}, key=abs)
    Base = draw.provider_class(env, float_width=w)

    class P(Base):
        first = True

        def draw_float(self, min_value=-math.inf, max_value=math.inf, *, allow_nan=True, smallest_nonzero_magnitude=5e-324, **k):
            if self.first:
                self.first = False
                ok = [c for c in (*cands, min_value, max_value) if min_value <= c <= max_value and math.isfinite(c) and (c == 0 or abs(c) >= smallest_nonzero_magnitude) and at_width(c) == c]
                return ok[env.choose("zi", len(ok))]
            return super().draw_float(min_value, max_value, allow_nan=allow_nan, smallest_nonzero_magnitude=smallest_nonzero_magnitude, **k)

    CD, BC = need("hypothesis.internal.conjecture.data", "ConjectureData"), need("hypothesis.control", "BuildContext")
    Stop = need("hypothesis.errors", "StopTest")
    d = CD(random=None, provider=P)
    IA = need("hypothesis.errors", "InvalidArgument")
    with BC(d, is_final=False):
        try:
            v = d.draw(s)
        except Stop:
            return
        except IA:
            if not sub:
                return  # there may be no normal value left beside this imaginary part
            raise
    env.reach("value")
    zr, zi = v.real, v.imag
    e = Fraction(1, 2 ** (prec - 2))
    slack = 2 * Fraction(tiny)
    if hi is not None:
        top = Fraction(hi) * (1 + e) + slack
        env.check(abs(zi) <= float(top) if top < Fraction(largest(64)) else True, "imaginary part beyond the maximum magnitude")
        r = isqrt_float(top * top - Fraction(zi) ** 2, True)
        env.check(env.And(env.Not(env.is_nan(zr)), zr <= r, zr >= -r), "the magnitude is above the maximum")
    bot = Fraction(lo) * (1 - e) - slack
    if bot > 0 and bot > abs(Fraction(zi)):
        r = isqrt_float(bot * bot - Fraction(zi) ** 2, False)
        env.check(env.Or(env.is_nan(zr), zr >= r, zr <= -r), "the magnitude is below the minimum")


def cathetus(env):
    """classification and range, for all pairs of doubles (the arithmetic itself is arbitrary)"""
    f = need("hypothesis.internal.cathetus", "cathetus")
    h, a = env.float("h"), env.float("a")
    r = f(h, a)
    nan_h, nan_a, inf_h, inf_a = env.is_nan(h), env.is_nan(a), env.is_inf(h), env.is_inf(a)
    bad = env.Or(nan_h, env.And(inf_h, inf_a), env.And(env.Not(inf_h), env.Or(abs(h) < abs(a))))
    if nan_a and not inf_h:
        return
    if bad:
        env.check(env.is_nan(r), "no such triangle, but a number was returned")
    else:
        env.check(env.Or(env.is_nan(r), r <= abs(h)), "the side is longer than the hypotenuse")
        if inf_h:
            env.check(env.is_inf(r), "infinite hypotenuse")


OBLIGATIONS = [
    *[Ob(f"fractions {f}{t}", fractions_, form=f, big=b, opts=OPTS, tier="thorough" if b else "quick")
      for b, t in ((False, ""), (True, " deep")) for f in ("", "l", "h", "lh", "d", "ld", "hd")],
    *[Ob(f"fractions lhd {m}{t}", fractions_, form="lhd", md=m, big=b, opts=OPTS, tier="thorough" if b else "quick")
      for b, t in ((False, ""), (True, " deep")) for m in range(8 if b else 5)],
    *[Ob(f"decimals {f} places={p}{t}", decimals, form=f, places=p, big=b, opts=OPTS, tier="thorough" if b else "quick")
      for b, t in ((False, ""), (True, " deep")) for f in ("", "l", "h", "lh") for p in (None, 0, 1, 3)],
    *[Ob(f"decimals {f} places={p} with special values", decimals, form=f, places=p, special=True, opts=OPTS) for f in ("", "l", "h", "lh") for p in (None, 1)],
    *[Ob(f"decimals lh places={p} in a low-precision context", decimals, form="lh", places=p, ambient=2, opts=OPTS) for p in (None, 2)],
    Ob("decimals huge bounds", decimals_huge, opts=OPTS),
    *[Ob(f"complex {w} {f}", complexes, width=w, form=f, opts={"unhashable": True}) for w in (32, 64, 128) for f in ("l", "h", "lh", "lhs")],
    Ob("cathetus", cathetus, opts={"fp": "havoc", "logic": "QF_BV"}),
]

quick_plan(
    OBLIGATIONS,
    deep={
        "decimals lh places=None in a low-precision context",
        "complex 32 lhs",
    },
)
