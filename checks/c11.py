"""C11: the engine honours example budgets, phases, and the best example of each bug."""

from symx.api import Ob, need

from checks import eng
from checks.c08 import random_values
from checks.c10 import before
from checks.eng import OPTS, Body

BOUNDS = (
    "one execution from every state of the counters with max_examples up to 10**6; every sequence of up to 3 (thorough 4) executions of arbitrary test bodies with up to two origins of failure and every outcome; "
    "whole runs of every test body of up to two requests of up to three values, with max_examples up to 3, every set of phases and every random decision, of up to 8 executions"
)
OUTSIDE = "alternative backends, deadlines and clocks, whole runs of more executions, flaky tests"
ASSUMPTIONS = ["fresh choices are arbitrary permitted values (decided by C06), in whole runs always the same for each request from the third on"]
D = "hypothesis.internal.conjecture.data"
E = "hypothesis.internal.conjecture.engine"


def one_step(env, end, known):
    """from every state of the counters, one more execution keeps within the limits"""
    CD, Status, Done = need(D, "ConjectureData"), need(D, "Status"), need(E, "RunIsComplete")
    n = env.int("max_examples", 1, 10**6)
    body = Body(env, ("int2",), 1, (end,))
    body.table["int2"] = ("integer", {"min_value": 0, "max_value": 10**6}, None)
    r = eng.runner(env, body, eng.fake_settings(max_examples=n))
    valid, invalid, overrun = (env.int(x, 0, 10**7) for x in ("valid", "invalid", "overrun"))
    r.valid_examples, r.invalid_examples, r.overrun_examples = valid, invalid, overrun
    r.call_count = calls = env.int("calls", 0, 10**8)
    limit = env.ite(10 * n > 1000, 10 * n, 1000)
    # the state of a run that goes on
    if known:
        r.interesting_examples["B"] = None
        r.first_bug_found_at = r.last_bug_found_at = calls
        env.assume(calls >= valid + invalid + overrun + 1)
    else:
        env.assume(env.And(calls >= valid + invalid + overrun, valid < n, calls < limit))
    data = r.new_conjecture_data((env.int("v", 0, 10**6),))
    stopped = False
    try:
        r.test_function(data)
    except Done:
        stopped = True
    env.check(r.call_count == calls + 1, "an execution is not counted, or twice")
    env.check(env.And(r.valid_examples == valid + (end == "valid"), r.invalid_examples == invalid + (end == "invalid"), r.overrun_examples == overrun + (end == "overrun")), "the outcome is not counted, or as another one")
    if known or end == "A":
        env.check(not stopped, "the run is ended although a failure is known, which is still to be shrunk")
        env.reach("failing")
        return
    env.check(env.Iff(stopped, env.Or(r.valid_examples >= n, r.call_count >= limit)), "the run goes on although its limits are reached, or ends although they are not")
    env.check(env.And(r.valid_examples <= n, r.call_count <= limit), "the limits are exceeded")
    env.reach("stopped" if stopped else "goes on")


def generate_more(env):
    """when to go on generating"""
    Phase = need("hypothesis", "Phase")
    n = env.int("max_examples", 1, 10**6)
    shrink, multiple = env.bool("shrink"), env.bool("report_multiple_bugs")
    phases = tuple(p for p in Phase if p is not Phase.shrink or shrink)
    r = eng.runner(env, lambda d: None, eng.fake_settings(max_examples=n, phases=phases, report_multiple_bugs=multiple))
    r.valid_examples = valid = env.int("valid", 0, 10**7)
    r.call_count = calls = env.int("calls", 0, 10**8)
    if env.bool("failed"):
        r.interesting_examples["A"] = None
        r.first_bug_found_at, r.last_bug_found_at = env.int("first", 1, 10**8), env.int("last", 1, 10**8)
        env.assume(env.And(r.first_bug_found_at <= r.last_bug_found_at, r.last_bug_found_at <= calls))
    more = r.should_generate_more()
    if env.Or(valid >= n, calls >= env.ite(10 * n > 1000, 10 * n, 1000)):
        env.check(not more, "generation goes on beyond the limits")
    elif not r.interesting_examples:
        env.check(more, "generation ends before the limits although nothing was found")
    elif not shrink or not multiple:
        env.check(not more, "generation goes on although only one bug is reported or shrinking is off")
    env.reach("decided")


def best(env, runs, requests=("int3",), depth=2, ends=("valid", "A", "B")):
    """for every origin the simplest failing execution is kept"""
    body = Body(env, requests, depth, ends)
    r = eng.runner(env, body, eng.fake_settings(max_examples=1000))
    Done, Status = need(E, "RunIsComplete"), need(D, "Status")
    seen = []
    firsts = {}
    with eng.any_values(env):
        for i in range(runs):
            data = r.new_conjecture_data(())
            try:
                r.test_function(data)
            except Done:
                env.check(r.tree.is_exhausted, "the run is ended although something is left")
                break
            finally:
                if data.status is Status.INTERESTING:
                    seen.append(data)
    origins = {d.interesting_origin for d in seen}
    env.check(set(r.interesting_examples) == origins, "the known failures are not the ones that happened")
    for o in sorted(origins):
        kept = r.interesting_examples[o]
        env.check(any(kept is d.as_result() for d in seen), "what is kept was not executed")
        env.check(kept.status is Status.INTERESTING and kept.interesting_origin == o, "what is kept does not fail with this origin")
        for d in seen:
            if d.interesting_origin == o:
                env.check(env.Not(before(env, d.nodes, kept.nodes)), "what is kept is not the simplest failing execution")
        env.reach("kept")
    if seen:
        env.check(1 <= r.first_bug_found_at <= r.last_bug_found_at <= r.call_count, "the times of the failures are not in order")


PHASES = ("generate", "shrink", "target", "reuse")


def run(env, n, off=(), requests=("int2",), depth=1, ends=("valid", "invalid", "A"), limit=8, multiple=True, patience=2):
    """whole runs"""
    Phase, Status = need("hypothesis", "Phase"), need(D, "Status")
    phases = [p for p in Phase if p.name not in off and p.name != "explain"]
    body = Body(env, requests, depth, ends)
    body.limit = limit
    r = eng.runner(env, body, eng.settings(env, max_examples=n, phases=phases, report_multiple_bugs=multiple))
    with random_values(env, patience=patience):
        r.run()
    failures = [x for x in body.log if x[1] not in ("valid", "invalid")]
    env.check(r.call_count == body.started, "executions are not counted")
    env.check(r.valid_examples == len([1 for x in body.log if x[1] == "valid"]), "valid executions are not counted, or others are")
    if not failures:
        env.check(r.valid_examples <= n, "more valid test cases than max_examples")
        env.check(not r.interesting_examples, "a failure is reported although there was none")
        env.check("generate" in off or r.valid_examples == n or body.root.complete(), "the run ended although nothing was found, max_examples was not reached, and something is left")
    env.check(set(r.interesting_examples) == {x[1] for x in failures}, "the reported failures are not the ones that happened")
    for name in ("reuse", "generate", "shrink"):
        ran = r.statistics.get(name + "-phase", {"test-cases": ()})["test-cases"]
        env.check(name not in off or not ran, "a phase that is switched off was executed")
    if "generate" in off:
        env.check(body.started == 0, "test cases were generated although generation is switched off")
        return
    for o in sorted(r.interesting_examples):
        kept = r.interesting_examples[o]
        env.check(kept.interesting_origin == o, "what is kept fails with another origin")
        node = body.root
        for v in kept.choices:
            node = node.child(env, v)
        env.check(node is not None and node.action == ("end", o), "what is kept does not fail with its origin when executed again")
        for values, how, data in body.log:
            if how == o:
                env.check(env.Not(before(env, data.nodes, kept.nodes)), "what is kept is not the simplest failing execution")
        env.reach("kept")
    env.reach("finished")


OBLIGATIONS = [
    *[Ob(f"one more {e} execution" + (", failure known" if k else ""), one_step, end=e, known=k, opts=OPTS) for e in ("valid", "invalid", "overrun", "A") for k in (False, True)],
    Ob("generating more", generate_more, opts=OPTS),
    Ob("best of two", best, runs=2, opts=OPTS),
    Ob("best of three", best, runs=3, depth=1, opts=OPTS),
    Ob("best of three, one origin", best, runs=3, requests=("int2",), ends=("A", "valid"), opts=OPTS),
    Ob("best of four", best, 100, tier="thorough", runs=4, opts=OPTS),
    Ob("best of three, other kinds", best, 100, tier="thorough", runs=3, requests=("int2", "bool", "text2"), opts=OPTS),
    *[Ob(f"run of {n}", run, n=n, opts=OPTS) for n in (1, 2, 3)],
    *[Ob(f"run of {n} of three values", run, n=n, requests=("int3",), opts=OPTS) for n in (1, 2)],
    Ob("run of two requests", run, n=2, depth=2, ends=("valid", "A"), opts=OPTS),
    Ob("run with two origins", run, n=2, ends=("A", "B", "valid"), requests=("int3",), opts=OPTS),
    Ob("run with two origins, one reported", run, n=2, ends=("A", "B"), requests=("int3",), multiple=False, opts=OPTS),
    *[Ob(f"run without {x}", run, n=2, off=(x,), opts=OPTS) for x in PHASES],
    Ob("run without generation and shrinking", run, n=2, off=("generate", "shrink"), opts=OPTS),
    Ob("long run", run, 100, tier="thorough", n=3, requests=("int3", "bool"), depth=2, ends=("valid", "invalid", "A", "B"), limit=14, patience=4, opts=OPTS),
]
