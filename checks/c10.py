"""C10: shrinking a failing test case never loses the failure or makes it worse."""

from symx.api import Ob, need, quick_plan

from checks import draw
from checks.c08 import Body as Plain, Dice as PlainDice, finish

BOUNDS = (
    "every deterministic test body (decided as it is executed, so that each new choice sequence may make other requests, in other spans, and end in another way) of up to 3 (thorough 4) requests of integers in -5..100, booleans, "
    "bytes and text of up to two characters, or floats, forced or not; every failing test case of it as the start; each shrink pass alone, the coarse reduction, and the whole shrink, cut off after 3 to 5 (thorough up to 10) executions of new test cases"
)
OUTSIDE = "runs of more executions, the explain phase, flaky tests"
ASSUMPTIONS = ["the order of indices of each kind of choice is its simplicity order (decided by C03)", "equal choices give equal results (decided by C07)"]
S = "hypothesis.internal.conjecture.shrinker"
D = "hypothesis.internal.conjecture.data"
OPTS = {"ints": "int", "symset": True, "symdict": True, "unhashable": True}


def kinds(env):
    IntervalSet = need("hypothesis.internal.intervalsets", "IntervalSet")
    a = IntervalSet([(97, 99)])
    f = {"min_value": 0.0, "max_value": 100.0, "allow_nan": False}
    return {
        "int": ("integer", {"min_value": 0, "max_value": 100}, None),
        "small": ("integer", {"min_value": 0, "max_value": 3}, None),
        "signed": ("integer", {"min_value": -5, "max_value": 5}, None),
        "towards": ("integer", {"min_value": -5, "max_value": 50, "shrink_towards": 3}, None),
        "bool": ("boolean", {"p": 0.5}, None),
        "bytes": ("bytes", {"min_size": 0, "max_size": 2}, None),
        "bytes2": ("bytes", {"min_size": 1, "max_size": 2}, None),
        "text": ("string", {"intervals": a, "min_size": 0, "max_size": 2}, None),
        "text1": ("string", {"intervals": a, "min_size": 1, "max_size": 2}, None),
        "float": ("float", f, None),
        "forced": ("integer", {"min_value": 0, "max_value": 100, "forced": 7}, None),
        "forced bool": ("boolean", {"p": 0.5, "forced": True}, None),
    }


def before(env, a, b):
    """the order of two lists of choices, from what the values and constraints are"""
    if len(a) != len(b):
        return len(a) < len(b)
    r = False
    for x, y in reversed(list(zip(a, b))):
        lt, eq = value_before(env, x, y)
        r = env.Or(lt, env.And(eq, r))
    return r


def value_before(env, x, y):
    if x.type != y.type or (x.type == "integer" and x.constraints != y.constraints):
        # not comparable by value: by the position in the order
        idx = need("hypothesis.internal.conjecture.choice", "choice_to_index")
        i, j = idx(x.value, x.constraints), idx(y.value, y.constraints)
        return i < j, i == j
    u, v = x.value, y.value
    if x.type == "integer":
        t = x.constraints["shrink_towards"]
        k = [2 * env.ite(w >= t, w - t, t - w) - env.ite(w > t, 1, 0) for w in (u, v)]
        return k[0] < k[1], k[0] == k[1]
    if x.type == "boolean":
        return env.And(env.Not(u), v), env.Iff(u, v)
    if x.type == "float":
        idx = need("hypothesis.internal.conjecture.choice", "choice_to_index")
        i, j = idx(u, x.constraints), idx(v, y.constraints)
        return i < j, i == j
    if len(u) != len(v):
        return len(u) < len(v), False
    f = (lambda c: c) if x.type == "bytes" else ord
    lt = False
    eq = True
    for p, q in zip(u, v):
        lt = env.Or(lt, env.And(eq, f(p) < f(q)))
        eq = env.And(eq, f(p) == f(q))
    return lt, eq


class Body(Plain):
    """an arbitrary deterministic body with spans; the results of its executions are kept"""

    def __init__(self, env, requests, depth, ends, style="flat"):
        super().__init__(env, requests, depth, ends)
        self.table = kinds(env)
        self.root = Node()
        self.style = style
        self.results = []

    def __call__(self, data):
        env = self.env
        node, depth, opened = self.root, 0, 0
        data.start_span(1)
        while True:
            self.decide(node, depth)
            if node.action[0] == "end":
                for _ in range(opened):
                    data.stop_span()
                data.stop_span()
                finish(data, node.action[1])
                return
            _, kind, kw, _ = node.action
            data.start_span(2)
            v = getattr(data, "draw_" + kind)(**kw)
            nxt = node.child(env, v)
            if nxt is None:
                nxt = Node()
                node.children.append((v, nxt))
            if self.style == "nested":
                opened += 1
            else:
                if nxt.discarded is None:
                    nxt.discarded = self.style == "discards" and env.bool("discarded")
                data.stop_span(discard=nxt.discarded)
            node, depth = nxt, depth + 1


class Node:
    def __init__(self):
        self.action = None
        self.children = []
        self.discarded = None
        self.discard = False
        self.result = None

    def child(self, env, v):
        for w, c in self.children:
            if env.same(v, w):
                return c
        return None


class Dice(PlainDice):
    def __init__(self, env):
        super().__init__(env)
        self.random = lambda: 0.5

    def randrange(self, a, b=None):
        a, b = (0, a) if b is None else (a, b)
        return a + self.env.choose("random", b - a)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def shuffle(self, xs):
        pass


class Engine:
    """executes the body and remembers the results"""

    report_debug_info = False
    misaligned_count = 0

    def __init__(self, env, body, runs):
        self.env, self.body, self.runs = env, body, runs
        self.call_count = 0
        self.random = Dice(env)
        self.Stop = need(S, "StopShrinking")

    def debug(self, *a):
        pass

    explain_next_call_as = debug

    def clear_call_explanation(self):
        pass

    def passing_choice_sequences(self, prefix=()):
        return frozenset()

    def execute(self, choices, extend):
        CD, Stop, Overrun = need(D, "ConjectureData"), need("hypothesis.errors", "StopTest"), need(D, "Overrun")
        limit = None if extend == "full" else len(choices) + extend if choices is not None else None
        data = CD(random=None, prefix=None if choices is None else tuple(choices), max_choices=limit, provider=draw.provider_class(self.env, cap=2))
        try:
            self.body(data)
        except Stop:
            data.freeze()
        Status = need(D, "Status")
        if data.status is Status.OVERRUN:
            return Overrun
        # mark_interesting and mark_invalid stop the test, so look the end up
        node = self.body.root
        for n in data.nodes:
            node = node.child(self.env, n.value)
        if node.result is None:
            self.call_count += 1
            node.result = data.as_result()
            self.body.results.append(node.result)
        elif data.misaligned_at is not None:
            return data.as_result()
        return node.result

    def cached_test_function(self, choices, *, extend=0):
        known = len(self.body.results)
        if known > self.runs:
            raise self.Stop
        return self.execute(choices, extend)


def failing(env, data):
    Status = need(D, "Status")
    return data.status is Status.INTERESTING and data.interesting_origin == "A"


def start(env, requests, depth, ends, style, runs, first, n=None):
    """an arbitrary failing test case of an arbitrary body"""
    body = Body(env, requests, depth, ends, style)
    chain = list(first)
    orig = body.decide

    def decide(node, d):
        if node.action is None and d <= len(chain) and body.pending:
            node.action = ("draw", *body.table[chain[d]]) if d < len(chain) else ("end", "A")
        orig(node, d)

    body.decide = decide
    body.pending = True
    e = Engine(env, body, runs)
    initial = e.execute(None, "full")
    body.pending = False
    return body, e, initial


def watch(env, body, initial):
    """the transitions that were made, each checked"""
    steps = [initial]

    def allow(source, destination):
        env.check(source is steps[-1], "a step is made from another test case than the current one")
        env.check(failing(env, destination), "a step to a test case that does not fail for the same reason")
        env.check(any(destination is r for r in body.results) or destination.misaligned_at is not None, "a step to a test case that was not executed")
        env.check(before(env, destination.nodes, source.nodes), "a step to a test case that is not simpler")
        permitted = need("hypothesis.internal.conjecture.choice", "choice_permitted")
        for n in destination.nodes:
            env.check(permitted(n.value, n.constraints), "a step to a test case with a value that is not permitted")
        env.reach("step")
        steps.append(destination)
        return True

    return steps, allow


def shrinker(env, body, e, initial, watched=True, predicate=True):
    Sh = need(S, "Shrinker")
    steps, allow = watch(env, body, initial)
    return steps, Sh(e, initial, (lambda d: failing(env, d)) if predicate else None, allow_transition=allow if watched else None, explain=False)


def conclude(env, s, body, initial, steps=None):
    end = s.shrink_target
    env.check(failing(env, end), "shrinking ends with a test case that does not fail for the same reason")
    env.check(any(end is r for r in body.results) or end.misaligned_at is not None, "shrinking ends with a test case that was not executed")
    env.check(end is initial or before(env, end.nodes, initial.nodes), "shrinking ends with a test case that is not simpler")
    if steps is not None:
        env.check(end is steps[-1], "shrinking ends with another test case than the last step led to")
    env.reach("shrunk" if end is not initial else "not shrunk")


def whole(env, first, runs, requests=("int",), depth=2, ends=("valid", "A", "B"), style="flat", watched=True):
    body, e, initial = start(env, requests, depth, ends, style, runs, first)
    steps, s = shrinker(env, body, e, initial, watched)
    s.shrink()
    conclude(env, s, body, initial, steps if watched else None)


def one_pass(env, what, first, runs, requests=("int",), depth=2, ends=("valid", "A"), style="flat"):
    Stop = need(S, "StopShrinking")
    body, e, initial = start(env, requests, depth, ends, style, runs, first)
    steps, s = shrinker(env, body, e, initial)
    try:
        if what == "coarse":
            s.initial_coarse_reduction()
        else:
            s.fixate_shrink_passes([what if what[0] != "X" else need(S, "node_program")(what)])
    except Stop:
        pass
    conclude(env, s, body, initial, steps)


def accept(env, kinds_, watched, ends=("valid", "invalid", "A", "B")):
    """one candidate, of any kind: taken exactly if it fails for the same reason, is simpler, and is allowed"""
    Sh = need(S, "Shrinker")
    body = Body(env, kinds_, 2, ends)
    e = Engine(env, body, 99)
    initial = e.execute(None, "full")
    if not failing(env, initial):
        env.cut("only failing test cases are shrunk")
    other = e.execute(None, "full")
    allowed = env.bool("allowed") if watched else True
    s = Sh(e, initial, lambda d: failing(env, d), allow_transition=(lambda a, b: allowed) if watched else None, explain=False)
    s.incorporate_test_data(other)
    want = env.And(failing(env, other), before(env, other.nodes, initial.nodes), allowed)
    env.check(env.Iff(s.shrink_target is other, want) if other is not initial else s.shrink_target is initial, "a candidate is taken although it is not a simpler failure, or the other way round")
    env.reach("candidate")


def key(env, kinds_, n=2):
    """the order of test cases is the documented one"""
    sort_key = need(S, "sort_key")
    body = Body(env, kinds_, n, ("A",))
    e = Engine(env, body, 99)
    a, b = e.execute(None, "full"), e.execute(None, "full")
    ka, kb = sort_key(a.nodes), sort_key(b.nodes)
    env.check(env.Iff(ka < kb, before(env, a.nodes, b.nodes)), "the order is not the documented one")
    env.reach("compared")


F = {k: v for k, v in OPTS.items() if k != "ints"}
OBLIGATIONS = [
    Ob("order", key, 60, kinds_=("int", "bool"), opts=OPTS),
    Ob("order of signed", key, 60, kinds_=("signed", "towards"), opts=OPTS),
    Ob("order of sizes", key, 60, kinds_=("bytes", "text"), n=1, opts=OPTS),
    Ob("candidate", accept, 60, kinds_=("int", "bool"), watched=False, opts=OPTS),
    Ob("candidate with a condition", accept, 60, kinds_=("towards",), watched=True, opts=OPTS),
]
W = [(("int",), 2), (("signed",), 2), (("towards",), 2), (("bool", "int"), 3), (("bytes",), 2), (("text",), 2), (("int", "int"), 2), (("bool", "bytes"), 3), (("forced", "int"), 3), (("text", "text"), 2), (("small", "small", "bool"), 3)]
for first, b in W:
    OBLIGATIONS.append(Ob("shrinking " + ", ".join(first), whole, first=first, runs=b, opts=OPTS, ends=("valid", "A"), requests=(first[-1],)))
    OBLIGATIONS.append(Ob("shrinking further " + ", ".join(first), whole, 100, tier="thorough", first=first, runs=b + 3, opts=OPTS, requests=tuple({first[0]: 1, "small": 1}), depth=3))
for p in ("try_trivial_spans", "XX", "X", "pass_to_descendant", "reorder_spans", "minimize_duplicated_choices", "minimize_individual_choices", "redistribute_numeric_pairs", "lower_integers_together", "lower_duplicated_characters", "coarse"):
    for style in ("flat", "nested", "discards"):
        kind = "text" if p == "lower_duplicated_characters" else "small" if p == "coarse" else "int"
        OBLIGATIONS.append(Ob(f"{p} on {style} {kind}s", one_pass, tier="thorough" if style == "discards" and p[0] in "lr" or style == "nested" and p[:3] == "min" else "quick", what=p, first=(kind, kind), runs=2 if style == "discards" or p.startswith("minimize") else 3, style=style, requests=(kind, "bool") if style == "flat" else (kind,), opts=OPTS))
        OBLIGATIONS.append(Ob(f"{p} on more {style} {kind}s", one_pass, 100, tier="thorough", what=p, first=(kind,) * 3, runs=5, depth=4, style=style, requests=(kind, "bool", "towards"), ends=("valid", "A", "B"), opts=OPTS))
for first in (("float",), ("int", "float"), ("float", "float")):
    OBLIGATIONS.append(Ob("shrinking " + ", ".join(first), whole, 100, tier="thorough", first=first, runs=3, opts=F))

quick_plan(
    OBLIGATIONS,
    deep={
        "minimize_duplicated_choices on discards ints",
    },
    budgets={
        "shrinking bytes": 15,
        "shrinking towards": 15,
        "shrinking int": 15,
        "minimize_individual_choices on discards ints": 15,
    },
)
