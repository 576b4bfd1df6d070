"""C08: the record of explored behaviour is exact, and novel inputs are really novel."""

import contextlib

from symx.api import Ob, need

from checks import draw
from checks.c12 import patched

BOUNDS = (
    "every history of up to 4 (thorough 6) executions of every deterministic test body of up to 3 requests (integers of one to three values, booleans, certain booleans, signed zeros, text and bytes of one or two values, forced or not), "
    "with discarded parts, overruns and every outcome, each execution on arbitrary choices or on a novel prefix under every random choice; predictions for every choice sequence after such histories; "
    "a second body that differs in any one request, end or discard"
)
OUTSIDE = "choices with more than 100000 values (documented as approximate), a body whose request is forced in one execution and free in another (documented as not always noticed), from failing to passing (reported elsewhere)"
ASSUMPTIONS = ["the random source of prefix generation returns arbitrary permitted values, and from the third attempt at one place on repeats its last one", "the children of a choice are enumerated without repeats (decided by C03)"]
T = "hypothesis.internal.conjecture.datatree"
D = "hypothesis.internal.conjecture.data"
OPTS = {"ints": "int", "symset": True, "symdict": True}


def kinds(env):
    IntervalSet = need("hypothesis.internal.intervalsets", "IntervalSet")
    a = IntervalSet([(97, 97)])
    return {
        # name: (type, arguments, number of permitted values)
        "int1": ("integer", {"min_value": 4, "max_value": 4}, 1),
        "int2": ("integer", {"min_value": 0, "max_value": 1}, 2),
        "int3": ("integer", {"min_value": -1, "max_value": 1}, 3),
        "bool": ("boolean", {"p": 0.5}, 2),
        "sure": ("boolean", {"p": 1.0}, 1),
        "zero": ("float", {"min_value": -0.0, "max_value": 0.0, "allow_nan": False}, 2),
        "one": ("float", {"min_value": 1.0, "max_value": 1.0, "allow_nan": False}, 1),
        "text2": ("string", {"intervals": a, "min_size": 0, "max_size": 1}, 2),
        "text1": ("string", {"intervals": IntervalSet([]), "min_size": 0, "max_size": 1}, 1),
        "bytes1": ("bytes", {"min_size": 0, "max_size": 0}, 1),
        "forced int": ("integer", {"min_value": 0, "max_value": 1, "forced": 1}, 1),
        "forced zero": ("float", {"min_value": -0.0, "max_value": 0.0, "allow_nan": False, "forced": -0.0}, 1),
        "forced bool": ("boolean", {"p": 0.5, "forced": True}, 1),
    }


class Node:
    def __init__(self):
        self.action = None  # what the body does here: a request, or how it ends
        self.children = []
        self.killed = False
        self.ended = False  # this end was reached by an execution
        self.discard = None

    @property
    def domain(self):
        return self.action[3]

    def complete(self):
        if self.killed:
            return True
        if self.action is None:
            return False
        if self.action[0] == "end":
            return self.ended
        return len(self.children) == self.action[3] and all(c.complete() for _, c in self.children)

    def child(self, env, v):
        for w, c in self.children:
            if env.same(v, w):
                return c
        return None


class Body:
    """an arbitrary deterministic test body, decided as it is executed"""

    def __init__(self, env, requests, depth, ends, discards=False):
        self.env, self.requests, self.depth, self.ends, self.discards = env, requests, depth, ends, discards
        self.table = kinds(env)
        self.root = Node()

    def decide(self, node, depth):
        if node.action is None:
            env = self.env
            opts = list(self.ends) + (list(self.requests) if depth < self.depth else [])
            if depth == 0:
                opts = list(self.requests)
            what = env.options("action", opts)
            if what in self.ends:
                node.action = ("end", what)
            else:
                node.action = ("draw", *self.table[what])
            node.discard = self.discards and depth > 0 and env.bool("discarded here")

    def __call__(self, data):
        node, depth, killed = self.root, 0, False
        while True:
            self.decide(node, depth)
            if node.discard and not killed:
                data.start_span(1)
                data.stop_span(discard=True)
                killed = node.killed = True
            if node.action[0] == "end":
                node.ended = True
                finish(data, node.action[1])
                return
            _, kind, kw, _ = node.action
            v = getattr(data, "draw_" + kind)(**kw)
            nxt = node.child(self.env, v)
            if nxt is None:
                nxt = Node()
                node.children.append((v, nxt))
            node, depth = nxt, depth + 1


def finish(data, how):
    if how == "invalid":
        data.mark_invalid()
    elif how != "valid":
        data.mark_interesting(how)
    data.freeze()


def execute(env, tree, body, prefix=None, limit=None):
    CD, Stop = need(D, "ConjectureData"), need("hypothesis.errors", "StopTest")
    data = CD(random=None, prefix=prefix, max_choices=limit, provider=draw.provider_class(env), observer=tree.new_observer())
    try:
        body(data)
    except Stop:
        data.freeze()
    return data


class Dice:
    """random choices among the enumerated children"""

    def __init__(self, env):
        self.env = env

    def choice(self, xs):
        return xs[self.env.choose("random", len(xs))]


@contextlib.contextmanager
def random_values(env, patience=2):
    """fresh values at random: any permitted ones, then always the same one"""
    HP = need("hypothesis.internal.conjecture.providers", "HypothesisProvider")
    any_ = draw.provider_class(env)(None)
    state = {}

    def method(kind):
        def m(self, *a, **kw):
            key = (kind, repr(sorted(kw.items(), key=lambda x: x[0])) if kind != "string" else len(kw["intervals"]))
            n, last = state.get(key, (0, None))
            v = last if n >= patience else getattr(any_, "draw_" + kind)(*a, **kw)
            state[key] = (n + 1, v)
            return v

        return m

    with patched(HP, **{"draw_" + k: method(k) for k in ("integer", "boolean", "float", "string", "bytes")}):
        yield


def permitted(env, kind, kw, v):
    P = need("hypothesis.internal.conjecture.choice", "choice_permitted")
    if "forced" in kw:
        return env.same(v, kw["forced"])
    if kind == "integer":
        return env.And(kw["min_value"] <= v, v <= kw["max_value"])
    if kind == "float":
        return env.Or(*[env.same(v, x) for x in (kw["min_value"], kw["max_value"])])
    if kind == "boolean":
        return type(v) is bool and (v or kw["p"] < 1)
    return kw["min_size"] <= len(v) <= (kw["max_size"] if kind == "bytes" or len(kw["intervals"]) else 0)


def check_prefix(env, body, prefix):
    """the prefix leads out of everything that was executed to the end or killed"""
    node = body.root
    for i, v in enumerate(prefix):
        if node.action is None:
            env.check(False, "the prefix goes on although nothing is known there")
        env.check(not node.complete(), "the prefix enters a finished part")
        env.check(node.action[0] == "draw", "the prefix is longer than a test case that was executed")
        env.check(permitted(env, node.action[1], node.action[2], v), "the prefix has a value that is not permitted")
        node = node.child(env, v)
        if node is None:
            env.reach("new value")
            return
    env.check(not node.complete(), "the prefix enters a finished part")
    env.check(not node.children, "the prefix was already executed")
    env.reach("unknown continuation")


def step(env, tree, body, limit=None, novel=True):
    """one more execution; False if there is nothing left to do"""
    if novel and env.options("how", ("novel", "arbitrary")) == "novel":
        if tree.is_exhausted:
            env.reach("exhausted")
            return False
        with random_values(env):
            prefix = tree.generate_novel_prefix(Dice(env))
        check_prefix(env, body, prefix)
        execute(env, tree, body, prefix, limit)
    else:
        execute(env, tree, body, None, limit)
    env.check(tree.is_exhausted == body.root.complete(), "exploration is declared finished although something is left, or the other way round")
    return True


def explore(env, requests, runs, depth=2, ends=("valid",), discards=False, limits=()):
    """novel prefixes are novel, and exhaustion is exact"""
    DT = need(T, "DataTree")
    tree, body = DT(), Body(env, requests, depth, ends, discards)
    for i in range(runs):
        if not step(env, tree, body, env.options("limit", (None, *limits)) if limits else None, novel=i > 0):
            break


def predict(env, requests, runs, depth=2, ends=("valid", "A"), discards=False):
    """a prediction is the recorded outcome, or that nothing is known"""
    DT, PU = need(T, "DataTree", "PreviouslyUnseenBehaviour")
    CD, Status = need(D, "ConjectureData", "Status")
    tree, body = DT(), Body(env, requests, depth, ends, discards)
    for _ in range(runs):
        execute(env, tree, body)
    data = CD(random=None, provider=draw.provider_class(env))
    try:
        tree.simulate_test_function(data)
        known = True
    except PU:
        known = False
    node = body.root
    for x in data.nodes:
        if node is None or node.action is None:
            env.check(False, "the prediction has a choice that was never made")
        env.check(node.action[0] == "draw" and node.action[1] == x.type, "the prediction makes a request the test body does not make")
        env.check(x.was_forced == ("forced" in node.action[2]), "the prediction forces a choice that the test body does not, or the reverse")
        env.check(permitted(env, x.type, node.action[2], x.value), "the prediction has a value that is not permitted")
        node = node.child(env, x.value)
    if known:
        if node is None or node.action is None or node.action[0] != "end":
            env.check(False, "an outcome is predicted although it was not observed")
        want = {"valid": Status.VALID, "invalid": Status.INVALID}.get(node.action[1], Status.INTERESTING)
        env.check(node.ended and data.status is want, "another outcome was predicted than was observed")
        env.check(data.interesting_origin == (node.action[1] if want is Status.INTERESTING else None), "another origin of the failure was predicted than was observed")
        env.reach("known")
    else:
        env.check(node is None or (node.action is None or not node.ended and not node.children), "the outcome was observed but is not predicted")
        env.reach("unknown")


def rewrite(env, requests, runs, depth=2):
    """predicting from choices that may be too short, too long, or of another kind"""
    DT = need(T, "DataTree")
    Status = need(D, "Status")
    tree, body = DT(), Body(env, requests, depth, ("valid", "A"))
    for _ in range(runs):
        execute(env, tree, body)
    given = [env.options("value", (env.int("v", -2, 2), -0.0, 0.0, "a")) for _ in range(env.choose("length", depth + 1))]
    out, status = tree.rewrite(tuple(given))
    CD, Stop = need(D, "ConjectureData"), need("hypothesis.errors", "StopTest")
    real = CD.for_choices(tuple(given))
    try:
        body(real)
    except Stop:
        real.freeze()
    if status is None:
        env.check(len(out) == len(given) and env.And(*[type(a) is type(b) and env.same(a, b) for a, b in zip(out, given)]), "choices of unknown outcome were changed")
        env.reach("unknown")
    else:
        env.check(status is real.status, "another status was predicted")
        env.check(len(out) == len(real.choices) and env.And(*[type(a) is type(b) and env.same(a, b) for a, b in zip(out, real.choices)]), "other choices were predicted")
        env.reach("known")


def flaky(env, one, two, first=("int2",)):
    """a test body that asks for something else in the same place is reported"""
    DT = need(T, "DataTree")
    FSD, FR, Flaky = need("hypothesis.errors", "FlakyStrategyDefinition", "FlakyReplay", "Flaky")
    table = kinds(env)
    tree = DT()
    values = [env.int("i", 0, 1) for _ in first]

    def body(what):
        def run(data):
            for f, v in zip(first, values):
                data.draw_integer(0, 1, forced=None)
            if what == "discard":
                data.start_span(1)
                data.stop_span(discard=True)
                finish(data, "valid")
            elif what in table:
                kind, kw, _ = table[what]
                getattr(data, "draw_" + kind)(**kw)
                finish(data, "valid")
            else:
                finish(data, what)

        return run

    extra = env.options("others", (0, 1, 2))
    for _ in range(extra):
        execute(env, tree, body(one))
    execute(env, tree, body(one), tuple(values))
    expected = None
    try:
        execute(env, tree, body(two), tuple(values))
    except Flaky as e:
        expected = type(e)
    env.check(expected is not None, "a test body that behaves differently on the same choices is not reported")
    if two in table or one in table:
        env.check(expected is FSD, "different requests are reported as something else")
    env.reach("reported")


OBLIGATIONS = [
    Ob("integers", explore, requests=("int2", "int3"), runs=4, tier="thorough", opts=OPTS),
    Ob("integers, two values", explore, requests=("int2",), runs=4, opts=OPTS),
    Ob("single values", explore, requests=("int1", "int2", "sure"), runs=3, depth=3, tier="thorough", opts=OPTS),
    Ob("single values, few", explore, requests=("int1", "bool"), runs=3, opts=OPTS),
    Ob("five runs", explore, requests=("int2", "int1", "bool"), runs=5, tier="thorough", opts=OPTS),
]
for k in ("int1", "int2", "int3", "bool", "sure", "zero", "one", "text2", "text1", "bytes1", "forced int", "forced zero", "forced bool"):
    OBLIGATIONS.append(Ob("one kind, " + k, explore, requests=(k,) if k in ("int3", "zero", "text2") else (k, "int2"), runs=3, opts=OPTS))
    OBLIGATIONS.append(Ob("two kinds, " + k, explore, requests=(k, "int2"), runs=4, tier="thorough", opts=OPTS))
    OBLIGATIONS.append(Ob("prediction, " + k, predict, requests=(k, "int2"), runs=2, opts=OPTS))
OBLIGATIONS += [
    Ob("discards", explore, requests=("int2", "forced int"), runs=3, discards=True, opts=OPTS),
    Ob("overruns", explore, requests=("int2", "int1"), runs=3, limits=(1,), ends=("valid",), opts=OPTS),
    Ob("outcomes", explore, requests=("bool",), runs=3, ends=("valid", "invalid", "A"), opts=OPTS),
    Ob("prediction with discards", predict, requests=("int2", "forced int"), runs=2, discards=True, opts=OPTS),
    Ob("rewriting", rewrite, requests=("int2", "zero"), runs=1, opts=OPTS),
    Ob("rewriting after two", rewrite, requests=("int2", "bool", "zero"), runs=2, tier="thorough", opts=OPTS),
]
A = ("int2", "int3", "bool", "text2", "valid", "A", "discard")
for one in A:
    for two in A:
        if one != two and (one, two) != ("A", "valid") and not (one == "discard" and two in ("valid", "A")) and (one, two) != ("valid", "discard"):
            OBLIGATIONS.append(Ob(f"flaky, {one} then {two}", flaky, one=one, two=two, opts=OPTS))
