"""C30: health checks fail exactly at their limits."""

import datetime
import random

from symx.api import Ob, need

from checks import eng
from checks.c08 import random_values
from checks.c12 import patched
from checks.eng import OPTS, Body

BOUNDS = (
    "up to three executions with every outcome from every state of the counters of valid, filtered and overrun examples below their limits (or beyond them, if suppressed), "
    "with every time of its draws (doubles up to 1000 s), also after others (whole numbers of seconds up to 1000), every set of suppressed health checks and the deadlines None, 0.01 s, 0.2 s, 0.25 s, 0.3 s, 1 s and 10 s; "
    "whole runs which filter or overrun, except for up to 12 executions starting at any point up to the 70th; simplest examples whose size is around the limit"
)
OUTSIDE = "the text of the timing report, the function-scoped fixture, nested given and differing executors checks, alternative backends"
ASSUMPTIONS = ["HealthCheckState.timing_report, which formats a message, returns", "math.fsum is exact on whole numbers"]
D = "hypothesis.internal.conjecture.data"
E = "hypothesis.internal.conjecture.engine"


class Timed(Body):
    """draws take some time"""

    times = ()

    def __call__(self, data):
        if self.times and self.times[0] is not None:
            data.draw_times["generate:x"] = self.times[0]
        self.times = self.times[1:]
        super().__call__(data)


def steps(env, ends, deadline=None, timed=False):
    """executions from an arbitrary state"""
    Done, State, HC, Failed = need(E, "RunIsComplete"), need(E, "HealthCheckState"), need("hypothesis", "HealthCheck"), need("hypothesis.errors", "FailedHealthCheck")
    checks = (HC.data_too_large, HC.filter_too_much, HC.too_slow)
    off = [c for c in checks if env.bool("suppressed " + c.name)]
    body = Timed(env, ("int2",), 1, ("valid",))
    body.table["int2"] = ("integer", {"min_value": 0, "max_value": 10**6}, None)
    r = eng.runner(env, body, eng.fake_settings(max_examples=1000, suppress_health_check=tuple(off), deadline=None if deadline is None else datetime.timedelta(seconds=deadline)))
    r.health_check_state = State()
    valid, invalid, overrun = env.int("valid", 0, 9), env.int("invalid", 0, 60), env.int("overrun", 0, 60)
    env.assume(env.And(env.Or(invalid < 50, HC.filter_too_much in off), env.Or(overrun < 20, HC.data_too_large in off)))
    r.health_check_state.valid_examples, r.health_check_state.invalid_examples, r.health_check_state.overrun_examples = valid, invalid, overrun
    limit = 30.0 if deadline is None else max(1.0, 5 * deadline)
    spent = 0.0
    if timed:
        spent = env.int("spent", 0, 1000) if timed == "whole" else 0.0
        env.assume(env.And(env.Or(spent <= limit, HC.too_slow in off)))
        r.health_check_state.draw_times["generate:y"].append(spent)
    over = False
    with patched(State, timing_report=lambda self: ""):
        for i, end in enumerate(ends):
            body.ends = (end,)
            body.root = type(body.root)()
            if timed:
                t = env.int("time", 0, 1000) if timed == "whole" else env.float("time")
                env.assume(env.And(t >= 0.0, t <= 1000.0))
                body.times = (t,)
                spent = spent + t if timed == "whole" else t
            data = r.new_conjecture_data((i,))
            r.tree = type(r.tree)()
            failed = None
            try:
                r.test_function(data)
            except Failed as e:
                failed = str(e)
            valid = valid + (end == "valid")
            invalid = invalid + (end == "invalid")
            overrun = overrun + (end == "overrun")
            over = bool(env.Or(over, end == "A", valid >= 10))
            reasons = {
                HC.data_too_large: env.And(overrun == 20, HC.data_too_large not in off),
                HC.filter_too_much: env.And(invalid == 50, HC.filter_too_much not in off),
                HC.too_slow: env.And(spent > limit, HC.too_slow not in off) if timed else False,
            }
            if over:
                env.check(failed is None, "a health check failed although enough examples were seen or a failure is known")
                env.reach("over")
                continue
            expected = env.Or(*reasons.values())
            env.check(env.Iff(failed is not None, expected), "a health check fails although no limit is reached, or does not although one is")
            if failed is not None:
                named = [c for c in HC if str(c) in failed]
                env.check(len(named) == 1 and named[0] in reasons and reasons[named[0]], "the health check which fails is another one than the one whose limit is reached")
                env.reach("failed")
                return
    env.reach("passed")


def whole(env, rest, then, n=12, suppressed=False, first=0, last=60):
    """a run which always filters, but for some executions"""
    HC, Failed, Done = need("hypothesis", "HealthCheck"), need("hypothesis.errors", "FailedHealthCheck"), need(E, "RunIsComplete")
    which = {"invalid": HC.filter_too_much, "overrun": HC.data_too_large}[rest]
    limit = {"invalid": 50, "overrun": 20}[rest]
    at = env.int("at", first, last)
    count = {"valid": 0, "invalid": 0, "overrun": 0, "A": 0}
    calls = 0

    class Found(Exception):
        pass

    def body(data):
        nonlocal calls
        data.draw_integer(0, 10**9)
        i, calls = calls, calls + 1
        how = then if (env.And(at <= i, i < at + n) if i <= last + n else False) else rest
        if i == 0 and how == "overrun":
            how = "invalid"  # or the simplest example is too large
        if i > 100 or (i > at + n + 25 if count["A"] + count["valid"] else False):
            raise Found
        count[how] += 1
        if how == "invalid":
            data.mark_invalid()
        elif how == "overrun":
            data.mark_overrun()
        elif how == "A":
            count["at"] = dict(count)
            data.mark_interesting("A")

    Phase = need("hypothesis", "Phase")
    st = eng.settings(env, max_examples=1000, phases=(Phase.generate,), suppress_health_check=[which] if suppressed else [])
    r = need(E, "ConjectureRunner")(body, settings=st, random=random.Random(0))
    failed = None
    try:
        r.run()
    except Failed as e:
        failed = str(e)
    except Found:
        pass
    if suppressed:
        env.check(failed is None, "a suppressed health check failed")
        env.reach("suppressed")
    elif failed is None:
        env.check(count[rest] < limit or count["valid"] >= 10 or count["A"], "a health check does not fail although its limit is reached")
        env.reach("passed")
    else:
        env.check(str(which) in failed, "another health check failed")
        env.check(limit <= count[rest] <= limit + 1 and count["valid"] <= 10 and not count["A"], "a health check failed before its limit is reached, or after it, or although enough was seen")
        env.reach("failed")


def base_example(env, suppressed=False):
    """the size of the simplest example"""
    HC, Failed, size = need("hypothesis", "HealthCheck"), need("hypothesis.errors", "FailedHealthCheck"), need(E, "BUFFER_SIZE")
    n = size // 2 + env.options("size", (-2, -1, 0, 1, 2, size // 2 - 3, size // 2, size))
    over = env.bool("more than fits")
    calls = 0

    class Enough(Exception):
        pass

    def body(data):
        nonlocal calls
        calls += 1
        try:
            data.draw_bytes(n - 1 if not over else 2 * size, 2 * size)
            data.draw_boolean()
        finally:
            if calls > 1:
                raise Enough

    st = eng.settings(env, max_examples=1000, suppress_health_check=[HC.large_base_example] if suppressed else [])
    r = eng.runner(env, body, st)
    failed = None
    try:
        r.run()
    except Failed as e:
        failed = str(e)
    except Enough:
        pass
    if suppressed:
        env.check(failed is None, "a suppressed health check failed")
        return
    env.reach("large" if failed is not None else "small")
    if failed is not None:
        env.check(str(HC.large_base_example) in failed, "another health check failed")
    if over:
        env.check(failed is not None, "an oversized simplest example is accepted")


QUICK = (("invalid", 12, False), ("overrun", 12, False), ("overrun", 9, False), ("overrun", 1, False), ("overrun", 12, True))
ONE = ("valid", "invalid", "overrun", "A")
OBLIGATIONS = [
    *[Ob("counters " + " ".join(e), steps, ends=e, opts=OPTS) for e in [(a,) for a in ONE] + [(a, b) for a in ONE for b in ONE] + [("invalid", "overrun", "invalid"), ("valid", "invalid", "valid"), ("overrun", "A", "overrun")]],
    *[Ob(f"seconds {' '.join(e)} {d}", steps, ends=e, deadline=d, timed="whole", opts=OPTS) for e in [(a,) for a in ONE] + [("invalid", "valid"), ("overrun", "overrun")] for d in (None, 0.01, 0.2, 1, 10)],
    *[Ob(f"time {e} {d}", steps, ends=(e,), deadline=d, timed="any", opts=OPTS) for e in ONE for d in (None, 0.01, 0.2, 0.25, 0.3, 10)],
    *[
        Ob(f"whole {a} {n} {b}{' suppressed' if s else ''}, {t}", whole, rest=a, then=b, n=n, suppressed=s, first=lo, last=hi, tier=t if (a, n, s) in QUICK else "thorough", opts=OPTS)
        for a, limit in (("invalid", 50), ("overrun", 20))
        for b, n in (("valid", 12), ("valid", 9), ("A", 1))
        for s in (False, True)
        for t, lo, hi in (("quick", limit - 4 - n // 4, limit + 1), ("thorough", 0, limit + 5))
    ],
    Ob("simplest example", base_example, opts=OPTS),
    Ob("simplest example suppressed", base_example, suppressed=True, opts=OPTS),
]
