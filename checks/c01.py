"""C01: the float simplicity ordering is a bijection on 64-bit floats."""

from symx.api import Ob, need, quick_plan

PROPERTY = "C01"
BOUNDS = "none below 64 bits: every one of the 2^64 bit patterns / places, and every pair of them"
ASSUMPTIONS = [
    "struct.pack/unpack, float() and int() on doubles mean what IEEE 754 and the CPython reference say",
]
M = "hypothesis.internal.conjecture.floats"


def nonneg(env):
    f = env.float("f")
    env.assume(env.bits(f) < (1 << 63))
    return f


def roundtrip_float(env):
    float_to_lex, lex_to_float = need(M, "float_to_lex", "lex_to_float")
    f = nonneg(env)
    n = float_to_lex(f)
    env.check(env.And(n >= 0, n < (1 << 64)), "place of a float outside 64 bits")
    g = lex_to_float(n)
    env.reach("roundtrip")
    env.check(env.same(f, g), "float -> place -> float changed the bits")


def total_place(env):
    """every 64-bit place decodes to a non-negative float"""
    (lex_to_float,) = (need(M, "lex_to_float"),)
    n = env.int("n", 0, (1 << 64) - 1)
    g = lex_to_float(n)
    env.reach("decode")
    env.check(env.bits(g) < (1 << 63), "a place decoded to a negative float")


def place_stable(env):
    """decoding a place and encoding again gives a canonical place for the same float"""
    float_to_lex, lex_to_float = need(M, "float_to_lex", "lex_to_float")
    n = env.int("n", 0, (1 << 64) - 1)
    g = lex_to_float(n)
    m = float_to_lex(g)
    env.check(env.same(lex_to_float(m), g), "re-encoding a decoded place lost the float")
    env.reach("stable")


def simple_first(env):
    """non-negative integers below 2**56 are placed at their own value, before all else"""
    (float_to_lex,) = (need(M, "float_to_lex"),)
    f = nonneg(env)
    n = float_to_lex(f)
    env.assume(f < float(2**56))
    if f.is_integer():
        env.reach("integer")
        env.check(n == int(f), "a small integer is not placed at its own value")
        env.check(n < (1 << 63), "small integers must come first")
    else:
        env.reach("fraction")
        env.check(n >= (1 << 63), "a fraction comes before a small integer")


def large_after(env):
    (float_to_lex,) = (need(M, "float_to_lex"),)
    f = nonneg(env)
    env.assume(env.Not(f < float(2**56)))
    n = float_to_lex(f)
    env.reach("large")
    env.check(n >= (1 << 63), "a large or special float comes before a small integer")


def order(env):
    """documented order within the non-simple floats"""
    (float_to_lex,) = (need(M, "float_to_lex"),)
    f = nonneg(env)
    g = env.float("g")
    env.assume(env.bits(g) < (1 << 63))
    b1, b2 = env.bits(f), env.bits(g)
    # both non-integral, of the same magnitude class [2**k, 2**(k+1)), 0 <= k < 52
    e1, e2 = (b1 >> 52), (b2 >> 52)
    env.assume(env.And(e1 >= 1023, e1 < 1075, e1 == e2))
    if f.is_integer() or g.is_integer():
        return
    i1, i2 = int(f), int(g)
    env.reach("pair")
    env.check(
        env.Implies(i1 < i2, float_to_lex(f) < float_to_lex(g)),
        "in one magnitude class a smaller integer part must come first",
    )


def order_classes(env, f_low, g_low):
    """a smaller magnitude class >= 1 comes before a larger one; fractions below 1 after those"""
    (float_to_lex,) = (need(M, "float_to_lex"),)
    f = nonneg(env)
    g = env.float("g")
    env.assume(env.bits(g) < (1 << 63))
    e1, e2 = (env.bits(f) >> 52), (env.bits(g) >> 52)
    env.assume(e1 < 2047)
    env.assume(e1 != e2)
    env.assume(e1 < 1023 if f_low else e1 >= 1023)
    env.assume(e2 < 1023 if g_low else e2 >= 1023)
    n = float_to_lex(f)
    env.assume(n >= (1 << 63))
    m = float_to_lex(g)
    env.assume(m >= (1 << 63))
    env.reach("classes")
    if not f_low:
        env.check(env.Implies(e1 < e2, n < m), "larger exponents come later")
        if g_low:
            env.check(n < m, "values below 1 come after larger ones")
    else:
        env.check(env.Implies(e2 < e1, n < m), "below 1, exponents nearer zero come first")
        if not g_low:
            env.check(env.Implies(e2 == 2047, n < m), "infinity and nan come last")


OBLIGATIONS = [
    Ob("float->place->float", roundtrip_float, opts={"logic": "QF_BV"}),
    Ob("every place decodes", total_place, opts={"logic": "QF_BV"}),
    Ob("canonical place", place_stable, opts={"logic": "QF_BV"}),
    Ob("integers first", simple_first, opts={"logic": "QF_BV"}),
    Ob("others after", large_after, opts={"logic": "QF_BV"}),
    Ob("order within a class", order, opts={"logic": "QF_BV"}),
    *[
        Ob(f"order between classes {a}{b}", order_classes, budget=100, f_low=a, g_low=b, opts={"logic": "QF_BV"})
        for a in (False, True)
        for b in (False, True)
    ],
]

quick_plan(
    OBLIGATIONS,
    deep={
        "canonical place",
    },
    budgets={
        "order between classes FalseFalse": 30,
    },
)
