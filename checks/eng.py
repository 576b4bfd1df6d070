"""Running the real engine on arbitrary deterministic test bodies."""

import contextlib
import types

from symx.api import need

from checks import draw
from checks.c08 import Body as Plain, Dice as PlainDice
from checks.c12 import patched

E = "hypothesis.internal.conjecture.engine"
D = "hypothesis.internal.conjecture.data"
OPTS = {"ints": "int", "symset": True, "symdict": True, "unhashable": True}


class Dice(PlainDice):
    """every random decision of the engine is arbitrary"""

    def random(self):
        return 0.5

    def randrange(self, a, b=None):
        a, b = (0, a) if b is None else (a, b)
        return a + self.env.choose("random", b - a)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def sample(self, xs, n):
        xs = list(xs)
        return [xs.pop(self.env.choose("random", len(xs))) for _ in range(n)]

    def randbytes(self, n):
        return bytes(n)

    def shuffle(self, xs):
        pass


class Body(Plain):
    """counts and logs its executions"""

    def __init__(self, env, requests, depth, ends, script=None):
        super().__init__(env, requests, depth, ends)
        self.log = []  # (choices, how it ended) of the complete executions
        self.started = 0
        self.limit = None

    def __call__(self, data):
        self.started += 1
        if self.limit is not None and self.started > self.limit:
            self.env.cut("more executions than the bound")
        node, depth = self.root, 0
        values = []
        while True:
            self.decide(node, depth)
            if node.action[0] == "end":
                self.log.append((values, node.action[1], data))
                node.ended = True
                how = node.action[1]
                if how == "invalid":
                    data.mark_invalid()
                elif how == "overrun":
                    data.mark_overrun()
                elif how != "valid":
                    data.mark_interesting(how)
                return
            _, kind, kw, _ = node.action
            v = getattr(data, "draw_" + kind)(**kw)
            values.append(v)
            nxt = node.child(self.env, v)
            if nxt is None:
                nxt = type(node)()
                node.children.append((v, nxt))
            node, depth = nxt, depth + 1


@contextlib.contextmanager
def any_values(env, patience=1):
    """fresh choices are arbitrary permitted ones; in the search for something new, the same one again after some attempts"""
    HP = need("hypothesis.internal.conjecture.providers", "HypothesisProvider")
    any_ = draw.provider_class(env)(None)
    with patched(HP, **{"draw_" + k: (lambda k: lambda self, *a, **kw: getattr(any_, "draw_" + k)(*a, **kw))(k) for k in ("integer", "boolean", "float", "string", "bytes")}):
        yield


def settings(env, **kw):
    """the real settings"""
    Settings, HC = need("hypothesis", "settings", "HealthCheck")
    base = {"database": None, "suppress_health_check": list(HC), "deadline": None}
    base.update(kw)
    return Settings(**base)


def runner(env, body, st, **kw):
    R = need(E, "ConjectureRunner")
    return R(body, settings=st, random=Dice(env), **kw)


def fake_settings(**kw):
    """settings whose numbers may be symbolic"""
    Phase, Verbosity = need("hypothesis", "Phase", "Verbosity")
    base = dict(max_examples=10, database=None, suppress_health_check=(), deadline=None, phases=tuple(Phase), backend="hypothesis", verbosity=Verbosity.normal, report_multiple_bugs=True)
    base.update(kw)
    return types.SimpleNamespace(**base)
