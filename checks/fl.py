"""Reference definitions for doubles used by several harnesses."""

import math

INF = 0x7FF0000000000000


def rank(env, f, width=64):
    """Position of a non-NaN float among all floats of 64 bits; -0.0 just below 0.0."""
    b = env.bits(f)
    m = b & ((1 << 63) - 1)
    return env.ite(b >= (1 << 63), ~m, m)


def isnan(env, f):
    return env.is_nan(f)


def mag(env, f):
    return env.bits(f) & ((1 << 63) - 1)


def lt(env, x, y):
    """strictly below, -0.0 < 0.0 (no NaN)"""
    return env.total_lt(x, y)


def le(env, x, y):
    return env.total_le(x, y)


def permitted(env, f, lo, hi, allow_nan, snm):
    """The meaning of the constraints of a float draw."""
    nan = isnan(env, f)
    ok = env.And(
        env.total_le(lo, f),
        env.total_le(f, hi),
        env.Or(f == 0.0, env.total_le(snm, f), env.total_le(f, -snm)),
    )
    return env.Or(env.And(nan, allow_nan), env.And(env.Not(nan), ok))


def of_width(env, name, width):
    """An arbitrary value of the given width (exactly representable), as a double."""
    if width == 64:
        return env.float(name)
    b = env.int(name, 0, (1 << width) - 1)
    return from_width_bits(env, b, width)


def from_width_bits(env, b, width):
    import struct

    f = struct.unpack({16: "!e", 32: "!f", 64: "!d"}[width], struct.pack({16: "!H", 32: "!I", 64: "!Q"}[width], b))[0]
    return f


def snormal(width):
    return {16: 2.0**-14, 32: 2.0**-126, 64: 2.0**-1022}[width]


def representable(env, f, width):
    """Is the double a value of the narrower format?  (NaN counts as representable.)"""
    if width == 64 or env.narrower(f, width):
        return True
    frac, emin, emax = {32: (23, -126, 127), 16: (10, -14, 15)}[width]
    b = env.bits(f)
    e = (b >> 52) & 0x7FF
    m = b & ((1 << 52) - 1)
    low = lambda k: (m & ((1 << k) - 1)) == 0
    cases = [
        e == 0x7FF,
        env.And(e == 0, m == 0),
        env.And(e >= emin + 1023, e <= emax + 1023, low(52 - frac)),
    ]
    for j in range(1, frac + 1):
        cases.append(env.And(e == emin - j + 1023, low(52 - frac + j)))
    return env.Or(*cases)


def nonempty(env, lo, hi, allow_nan, snm):
    """Does any float satisfy the constraints of a float draw?"""
    cands = [lo, hi, 0.0, -0.0, snm, -snm]
    return env.Or(allow_nan, *[env.And(env.Not(isnan(env, c)), permitted(env, c, lo, hi, False, snm)) for c in cands])


def f2bits(env, f):
    return env.bits(f)


def largest(width):
    return {64: 1.7976931348623157e308, 32: (2 - 2.0**-23) * 2.0**127, 16: 65504.0}[width]
