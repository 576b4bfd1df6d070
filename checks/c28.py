"""C28: registered random states are seeded before and restored after each test."""

import contextlib
import weakref

from symx.api import Ob, need

from checks.c12 import patched

BOUNDS = "every history of up to 4 (thorough 6) events - registering a generator, again, dropping, using it, a test whose body contains up to 3 (thorough 4) further events and may raise, with a further such test within it - on up to two generators to begin with, with arbitrary states, seeds and equality of generators"
OUTSIDE = "longer histories, more than 4 generators, NumPy, alternative interpreters, generators which fail to be seeded or restored"
ASSUMPTIONS = ["registered generators are referenced elsewhere (gc.collect and gc.get_referrers, which take long, are replaced)"]
M = "hypothesis.internal.entropy"


class Boom(Exception):
    pass


def rng(env, equal):
    class Rng:
        """a generator, which may be equal to any other"""

        def __init__(self):
            self.state = env.int("state", 0, 10**9)

        def seed(self, s):
            self.state = s + 10**10

        def getstate(self):
            return self.state

        def setstate(self, state):
            self.state = state

        def __eq__(self, other):
            return True if equal else self is other

        def __hash__(self):
            return 0

    return Rng()


class Row:
    def __init__(self, obj, key):
        self.obj, self.key, self.registered, self.expected = obj, key, False, obj.state


class World:
    def __init__(self, env, equal, how):
        self.env, self.equal, self.how = env, equal, how
        self.rows = []
        self.count = 0

    def new(self):
        self.rows.append(Row(rng(self.env, self.equal), self.count))
        self.count += 1

    def check(self, what):
        for row in self.rows:
            self.env.check(row.obj.state == row.expected, what)

    def register(self, i):
        need(M, "register_random")(self.rows[i].obj)
        self.rows[i].registered = True

    def events(self, n, inner):
        env = self.env
        for _ in range(n):
            what = env.options("event", ["register", "use", "drop"] + (["test"] if inner else []) + ["end"])
            if what == "end":
                return
            if what == "test":
                self.test(inner)
            elif what == "register":
                i = env.choose("which", len(self.rows) + (len(self.rows) < 4))
                if i == len(self.rows):
                    self.new()
                self.register(i)
                self.check("registering changed a state")
            elif self.rows:
                i = env.choose("which", len(self.rows))
                if what == "drop":
                    self.rows.pop(i)
                    env.reach("dropped")
                else:
                    self.rows[i].obj.state = self.rows[i].expected = env.int("state", 0, 10**9)

    def body(self, seed, before, inner):
        env = self.env
        before.update({row.key: row.expected for row in self.rows if row.registered})
        for row in self.rows:
            if row.registered:
                row.expected = seed + 10**10
        self.check("a registered generator is not seeded, or one that is not registered is")
        self.events(inner[0], inner[1:])
        if env.bool("raise"):
            raise Boom

    def test(self, inner):
        env, before, seed = self.env, {}, 0
        if self.how == "pair":
            seed = env.int("seed", 0, 2**32 - 1)
            seed_all, restore_all = need(M, "get_seeder_and_restorer")(seed)
            seed_all()
            try:
                self.body(seed, before, inner)
            except Boom:
                pass
            finally:
                restore_all()
        else:
            try:
                with need(M, "deterministic_PRNG")():
                    self.body(seed, before, inner)
            except Boom:
                env.reach("raised")
        for row in self.rows:
            if row.key in before:
                row.expected = before[row.key]
        self.check("a state is not restored after the test, or changed although it was not seeded")
        env.reach("test")


@contextlib.contextmanager
def isolated():
    m = need(M)
    with patched(m, RANDOMS_TO_MANAGE=weakref.WeakValueDictionary(), NP_RANDOM=object()), patched(m.gc, collect=lambda *a: 0, get_referrers=lambda *a: [0]):
        yield


def history(env, n, inner=(2,), equal=False, how="context", start=1):
    need(M, "RANDOMS_TO_MANAGE", "NP_RANDOM", "gc")
    with isolated():
        w = World(env, equal, how)
        for i in range(start):
            w.new()
            if env.bool("registered"):
                w.register(i)
        w.events(n, inner)
        w.test((0,))


def given_test(env, equal=False, n=2, inner=1):
    """the states around each execution of a real test"""
    given, settings, HC, Phase = need("hypothesis", "given"), need("hypothesis", "settings"), need("hypothesis", "HealthCheck"), need("hypothesis", "Phase")
    booleans = need("hypothesis.strategies", "booleans")
    with isolated():
        w = World(env, equal, "context")
        w.new()
        w.new()
        w.register(0)
        outside = None

        @settings(max_examples=n, database=None, deadline=None, derandomize=True, suppress_health_check=list(HC), phases=[Phase.generate])
        @given(booleans())
        def test(b):
            nonlocal outside
            if outside is not None:
                for row in w.rows:
                    if row.key in outside:
                        row.expected = outside[row.key]
            outside = {row.key: row.expected for row in w.rows if row.registered}
            for row in w.rows:
                if row.registered:
                    row.expected = 10**10
            w.check("a registered generator is not seeded, or one that is not registered is")
            w.events(inner, ())
            env.reach("executed")

        failed = False
        test()
        for row in w.rows:
            if outside and row.key in outside:
                row.expected = outside[row.key]
        w.check("a state is not restored after the test, or changed although it was not seeded")


OBLIGATIONS = [
    *[Ob(f"history {how} {n} {inner} from {s}{' all equal' if e else ''}", history, n=n, inner=inner, how=how, start=s, equal=e) for how in ("context", "pair") for n, inner, s in ((1, (2,), 1), (1, (1,), 2), (2, (1,), 1), (1, (1, 1), 1), (3, (), 1), (1, (3,), 0)) for e in (False, True)],
    *[Ob(f"deep history {how} {n} {inner} from {s}{' all equal' if e else ''}", history, 100, tier="thorough", n=n, inner=inner, how=how, start=s, equal=e) for how in ("context", "pair") for n, inner, s in ((4, (2,), 1), (2, (3,), 2), (2, (2, 2), 1), (1, (4,), 1)) for e in (False, True)],
    Ob("test", given_test),
    Ob("test, two events", given_test, inner=2),
]
