"""Running strategies on arbitrary choices: a primitive provider that returns, for
every request, an arbitrary value satisfying the request's constraints."""

from symx.api import need

from checks import fl

CAP = 3  # default cap on the length of drawn bytes / text above the minimum size


def provider_class(env, cap=CAP, int_cap=None, float_width=64):
    PP = need("hypothesis.internal.conjecture.providers", "PrimitiveProvider")

    class SymProvider(PP):
        lifetime = "test_case"
        avoid_realization = True
        log = []

        def __init__(self, cd):
            super().__init__(cd)
            self.log = []
            self.requests = []  # the alphabets asked for

        def draw_boolean(self, p=0.5, **kw):
            if p <= 0:
                v = False
            elif p >= 1:
                v = True
            else:
                v = env.bool("b")
            self.log.append(("boolean", v))
            return v

        def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0, **kw):
            # values further than the cap from the given bound are outside the bounds of the check
            if int_cap and min_value is None:
                min_value = -int_cap if max_value is None else max_value - int_cap
                if max_value is None:
                    max_value = int_cap
            elif int_cap and max_value is None:
                max_value = min_value + int_cap
            self.bounds = (min_value, max_value)  # of the last request
            v = env.int("i", lo=_hull(env, min_value, 0), hi=_hull(env, max_value, 1))
            if min_value is not None:
                env.assume(v >= min_value)
            if max_value is not None:
                env.assume(v <= max_value)
            self.log.append(("integer", v))
            return v

        def draw_float(self, min_value=-float("inf"), max_value=float("inf"), *, allow_nan=True, smallest_nonzero_magnitude=5e-324, **kw):
            env.check(fl.nonempty(env, min_value, max_value, allow_nan, smallest_nonzero_magnitude), "a float was requested although the constraints admit none")
            v = fl.of_width(env, "f", float_width)
            env.assume(fl.permitted(env, v, min_value, max_value, allow_nan, smallest_nonzero_magnitude))
            self.log.append(("float", v))
            return v

        def _size(self, min_size, max_size):
            # sizes above the cap are outside the bounds of the check
            if env.symbolic:
                min_size, max_size = env.concretize(min_size), env.concretize(max_size)
            n = min(max_size, min_size + cap) - min_size + 1
            return min_size + env.choose("n", n)

        def draw_string(self, intervals, *, min_size=0, max_size=10**10, **kw):
            n = self._size(min_size, max_size)
            ivs = intervals.intervals
            self.requests.append(ivs)
            if not ivs:
                v = ""
            else:
                v = env.str("s", n, lo=_hull(env, ivs[0][0], 0) or 0, hi=_top(env, ivs))
                for c in v:
                    env.assume(env.Or(*[env.And(ord(c) >= a, ord(c) <= b) for a, b in ivs]))
            self.log.append(("string", v))
            return v

        def draw_bytes(self, min_size=0, max_size=10**10, **kw):
            v = env.bytes("y", self._size(min_size, max_size))
            self.log.append(("bytes", v))
            return v

    return SymProvider


def _top(env, ivs):
    hi = _hull(env, ivs[-1][1], 1)
    return 0x10FFFF if hi is None else min(hi, 0x10FFFF)


def _hull(env, x, side):
    """a concrete bound for a symbolic integer, if there is one"""
    return None if x is None else env.hull(x)[side]


class Outcome:
    def __init__(self, kind, value=None, data=None):
        self.kind, self.value, self.data = kind, value, data


def data(env, max_choices=None, **kw):
    CD = need("hypothesis.internal.conjecture.data", "ConjectureData")
    return CD(random=None, provider=provider_class(env, **kw), max_choices=max_choices)


def build(env, f):
    """Build and validate a strategy; an unsuitable argument is a legal outcome."""
    IA = need("hypothesis.errors", "InvalidArgument")
    try:
        s = f()
        s.validate()
        return s
    except IA:
        env.reach("rejected arguments")
        return None


def draw(env, strategy, max_choices=None, **kw):
    """One test case drawing from the strategy: kind is value / invalid / overrun."""
    StopTest, Unsat = need("hypothesis.errors", "StopTest", "UnsatisfiedAssumption")
    Status = need("hypothesis.internal.conjecture.data", "Status")
    BC = need("hypothesis.control", "BuildContext")
    d = data(env, max_choices=max_choices, **kw)
    try:
        with BC(d, is_final=False):
            v = d.draw(strategy)
    except StopTest:
        env.reach(d.status.name.lower())
        return Outcome("overrun" if d.status is Status.OVERRUN else "invalid", None, d)
    except Unsat:
        env.reach("unsatisfied")
        return Outcome("invalid", None, d)
    return Outcome("value", v, d)
