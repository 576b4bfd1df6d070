"""C02: adjacent floats, counting, width rounding, clamping."""

from checks import fl
from symx.api import Ob, need

BOUNDS = "none: every bit pattern of each width, every pair/triple of them"
ASSUMPTIONS = [
    "struct pack/unpack of 16/32/64-bit floats round as IEEE 754 (validated against CPython in tools/selftest.py)",
    "the rounding arithmetic inside the clamper is replaced by 'any double' (an over-approximation)",
    "bounds handed to the clamper are not NaN, ordered, and themselves permitted by the smallest magnitude",
]
M = "hypothesis.internal.floats"
BV = {"logic": "QF_BV"}


def next_up_is_neighbour(env, width):
    (next_up,) = (need(M, "next_up"),)
    v = fl.of_width(env, "v", width)
    r = next_up(v, width)
    if env.Or(fl.isnan(env, v), env.bits(v) == fl.INF):
        env.reach("nan/inf")
        env.check(env.Or(env.And(fl.isnan(env, v), fl.isnan(env, r)), env.same(v, r)), "next_up of nan/inf")
        return
    env.reach("finite")
    env.check(env.Not(fl.isnan(env, r)), "next_up gave NaN")
    env.check(fl.lt(env, v, r), "next_up is not larger")
    u = fl.of_width(env, "u", width)
    env.assume(env.Not(fl.isnan(env, u)))
    env.check(env.Not(env.And(fl.lt(env, v, u), fl.lt(env, u, r))), "a representable value lies between v and next_up(v)")


def next_down_is_neighbour(env, width):
    (next_down,) = (need(M, "next_down"),)
    v = fl.of_width(env, "v", width)
    env.assume(env.Not(fl.isnan(env, v)))
    r = next_down(v, width)
    if env.bits(v) == fl.INF | (1 << 63):
        env.check(env.same(v, r), "next_down(-inf)")
        return
    env.reach("finite")
    env.check(env.And(env.Not(fl.isnan(env, r)), fl.lt(env, r, v)), "next_down is not smaller")
    u = fl.of_width(env, "u", width)
    env.assume(env.Not(fl.isnan(env, u)))
    env.check(env.Not(env.And(fl.lt(env, r, u), fl.lt(env, u, v))), "a representable value lies between next_down(v) and v")


def inverse(env, width):
    next_up, next_down = need(M, "next_up", "next_down")
    v = fl.of_width(env, "v", width)
    env.assume(env.And(fl.mag(env, v) < fl.INF))
    env.reach("inverse")
    env.check(env.same(next_down(next_up(v, width), width), v), "next_down(next_up(v)) != v")
    env.check(env.same(next_up(next_down(v, width), width), v), "next_up(next_down(v)) != v")


def normal_neighbours(env, width, allow):
    nu, nd = need(M, "next_up_normal", "next_down_normal")
    v = fl.of_width(env, "v", width)
    sn = fl.mag(env, fl.snormal(width))
    env.assume(fl.mag(env, v) < fl.INF)
    if not allow:
        # as used: values that are themselves zero or normal
        env.assume(env.Or(fl.mag(env, v) == 0, fl.mag(env, v) >= sn))
    u = fl.of_width(env, "u", width)
    env.assume(env.Not(fl.isnan(env, u)))
    if not allow:
        env.assume(env.Or(fl.mag(env, u) == 0, fl.mag(env, u) >= sn))
    r = nu(v, width, allow_subnormal=allow)
    env.reach("normal")
    if not allow:
        env.check(env.Or(fl.mag(env, r) == 0, fl.mag(env, r) >= sn), "next_up_normal gave a subnormal")
    env.check(env.And(fl.le(env, v, r), env.Or(r > v, fl.mag(env, v) == 0)), "next_up_normal is not larger")
    env.check(env.Not(env.And(v < u, u < r)), "next_up_normal skipped a value")
    d = nd(v, width, allow_subnormal=allow)
    if not allow:
        env.check(env.Or(fl.mag(env, d) == 0, fl.mag(env, d) >= sn), "next_down_normal gave a subnormal")
    env.check(env.And(fl.le(env, d, v), env.Or(d < v, fl.mag(env, v) == 0)), "next_down_normal is not smaller")
    env.check(env.Not(env.And(d < u, u < v)), "next_down_normal skipped a value")


def count(env, width):
    """count == number of representable values: the counting function has step one at each neighbour"""
    cb, next_up = need(M, "count_between_floats", "next_up")
    x = fl.of_width(env, "x", width)
    y = fl.of_width(env, "y", width)
    env.assume(env.And(env.Not(fl.isnan(env, x)), env.Not(fl.isnan(env, y))))
    env.assume(fl.le(env, x, y))
    n = cb(x, y, width)
    env.reach("count")
    if fl.rank(env, x) == fl.rank(env, y):
        env.reach("single")
        env.check(n == 1, "one value must count as one")
    else:
        # y above x: dropping y's lower neighbour step by step must drop the count by one
        z = need(M, "next_down")(y, width)
        env.check(cb(x, z, width) == n - 1, "count does not step by one")


def rounding(env, width):
    (float_of,) = (need(M, "float_of"),)
    x = env.float("x")
    env.assume(env.Not(fl.isnan(env, x)))
    try:
        r = float_of(x, width)
    except OverflowError:
        env.reach("overflow")
        big = fl.from_width_bits(env, {16: 0x7BFF, 32: 0x7F7FFFFF}[width], width)
        env.check(env.Or(x > big, x < -big), "overflow for a value in range")
        return
    env.reach("rounded")
    u = fl.of_width(env, "u", width)
    env.assume(env.Not(fl.isnan(env, u)))
    env.check(env.Not(env.And(x < u, u < r)), "rounding skipped a representable value above")
    env.check(env.Not(env.And(r < u, u < x)), "rounding skipped a representable value below")
    env.check(env.Implies(env.same(u, x), env.same(r, x)), "rounding changed a representable value")
    env.check(env.same(float_of(r, width), r), "the rounded value is not representable")


def order(env):
    (sal,) = (need(M, "sign_aware_lte"),)
    x, y = env.float("x"), env.float("y")
    env.assume(env.And(env.Not(fl.isnan(env, x)), env.Not(fl.isnan(env, y))))
    env.reach("order")
    env.check(env.Iff(sal(x, y), fl.le(env, x, y)), "sign-aware order is not the order of the reals with -0.0 < 0.0")


def clamp(env):
    (cl,) = (need(M, "clamp"),)
    lo, hi, v = env.float("lo"), env.float("hi"), env.float("v")
    env.assume(env.And(env.Not(fl.isnan(env, lo)), env.Not(fl.isnan(env, hi)), fl.le(env, lo, hi)))
    r = cl(lo, v, hi)
    if fl.isnan(env, v):
        env.reach("nan")
        env.check(env.same(r, lo), "NaN must clamp to the lower bound")
        return
    env.reach("value")
    env.check(env.And(fl.le(env, lo, r), fl.le(env, r, hi)), "clamped value outside the bounds")
    env.check(env.Implies(env.And(fl.le(env, lo, v), fl.le(env, v, hi)), env.same(r, v)), "clamping changed a value within the bounds")
    env.check(env.Implies(fl.lt(env, v, lo), env.same(r, lo)), "value below must clamp to the lower bound")
    env.check(env.Implies(fl.lt(env, hi, v), env.same(r, hi)), "value above must clamp to the upper bound")


def clamper(env, allow_nan):
    (mk,) = (need(M, "make_float_clamper"),)
    lo, hi, snm, v = env.float("lo"), env.float("hi"), env.float("snm"), env.float("v")
    for f in (lo, hi):
        env.assume(env.Not(fl.isnan(env, f)))
        env.assume(env.Or(fl.mag(env, f) == 0, fl.mag(env, f) >= fl.mag(env, snm)))
    env.assume(fl.le(env, lo, hi))
    env.assume(env.And(env.bits(snm) > 0, env.bits(snm) < fl.INF))
    env.assume(env.bits(v) < (1 << 63)) # documented: clamps positive floats; sign is applied before
    f = mk(lo, hi, allow_nan=allow_nan, smallest_nonzero_magnitude=snm)
    sign = env.bool("negative")
    x = -v if sign else v
    r = f(x)
    env.reach("clamped")
    if fl.permitted(env, x, lo, hi, allow_nan, snm):
        env.reach("kept")
        env.check(env.same(r, x), "the clamper changed a permitted value")
    else:
        env.reach("moved")
        env.check(fl.permitted(env, r, lo, hi, allow_nan, snm), "the clamper returned a value that is not permitted")


HV = {"logic": "QF_BV", "fp": "havoc"}
OBLIGATIONS = [
    *[Ob(f"next_up {w}", next_up_is_neighbour, width=w, opts=BV) for w in (16, 32, 64)],
    *[Ob(f"next_down {w}", next_down_is_neighbour, width=w, opts=BV) for w in (16, 32, 64)],
    *[Ob(f"inverse {w}", inverse, width=w, opts=BV) for w in (16, 32, 64)],
    *[Ob(f"normal {w} {a}", normal_neighbours, width=w, allow=a, opts=BV) for w in (16, 32, 64) for a in (False, True)],
    *[Ob(f"count {w}", count, width=w, opts=BV) for w in (16, 32, 64)],
    *[Ob(f"float_of {w}", rounding, width=w, opts=BV) for w in (16, 32)],
    Ob("sign_aware_lte", order, opts=BV),
    Ob("clamp", clamp, opts=BV),
    *[Ob(f"clamper nan={a}", clamper, allow_nan=a, opts=HV) for a in (False, True)],
]
