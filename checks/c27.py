"""C27: state-machine runs obey initialize, precondition, bundle and invariant rules."""

from symx.api import Ob, need, quick_plan

from checks import draw

BOUNDS = (
    "machines made of up to two initialize rules, up to four rules (adding up to two values to one of two bundles, using, consuming, both at once, behind a precondition) and up to three invariants (always, behind a precondition, during initialization), "
    "with preconditions that change arbitrarily after each step, every step or invariant raising or not, stateful_step_count up to 3 (thorough 4), every choice, and the data running out anywhere"
)
OUTSIDE = "more steps, rules which draw interactively, flatmapped bundles, printing of the steps"
ASSUMPTIONS = ["the choices are arbitrary permitted values (decided by C06)", "the probability with which rules are disabled is 0 or 100/255"]
S = "hypothesis.stateful"


class Boom(Exception):
    pass


class Token:
    """a value of a bundle"""


class World:
    """what the machine should be like"""

    def __init__(self, env, steps, inits, raising):
        self.env, self.limit, self.inits, self.raising = env, steps, set(inits), raising
        self.pending = set(inits)
        self.bundles = {"b": [], "c": []}
        self.steps = self.torn = self.added = 0
        self.flag = {"rule": True, "invariant": True}
        self.due = None  # invariants still to be checked after the last step
        self.over = False
        self.running = False

    def invariants_due(self, machine):
        self.due = [n for n, (during, guarded) in machine.INVARIANTS.items() if (during or not self.pending) and (not guarded or self.flag["invariant"])]

    def step(self, name, guarded):
        env = self.env
        env.check(not self.over, "a step is run after the run has ended")
        env.check(not self.due, "an invariant was not checked after a step, or initially")
        self.due = None
        self.steps += 1
        env.check(self.steps <= self.limit, "more steps are run than stateful_step_count")
        if name in self.inits:
            env.check(name in self.pending, "an initialize rule is run twice")
        else:
            env.check(not self.pending, "a rule is run before all initialize rules")
        if guarded:
            env.check(self.flag["rule"], "a rule is run although its precondition does not hold")
            env.reach("guarded rule")

    def end(self, machine, name):
        env = self.env
        if self.raising and env.bool("raises"):
            self.over = True
            raise Boom
        self.pending.discard(name)
        if machine.GUARDED:
            self.flag["rule"] = bool(env.bool("precondition"))
        if any(g for _, g in machine.INVARIANTS.values()):
            self.flag["invariant"] = bool(env.bool("invariant holds"))
        self.invariants_due(machine)

    def add(self, names, multiple_):
        """the values a rule returns"""
        xs = [Token() for _ in range(self.env.options("results", (0, 1, 2)) if multiple_ else 1)]
        for n in names:
            self.bundles[n] += xs
        self.added += len(xs)
        return xs

    def take(self, name, value, consume):
        env = self.env
        have = [x for x in self.bundles[name] if x is value]
        env.check(have, "a value which is not in the bundle, or was consumed, is drawn from it")
        if consume and have:
            i = next(i for i, x in enumerate(self.bundles[name]) if x is value)
            self.bundles[name].pop(i)
            env.reach("consumed")


def machine(env, w, inits, rules, invariants):
    """a machine with these parts"""
    RBSM, Bundle, rule, initialize, invariant, precondition, consumes, multiple = need(S, "RuleBasedStateMachine", "Bundle", "rule", "initialize", "invariant", "precondition", "consumes", "multiple")
    lists, sets = need("hypothesis.strategies", "lists"), None
    ns = {}
    b, c = Bundle("b"), Bundle("c")
    eager = Bundle("c", consume=True)
    ns["b"], ns["c"] = b, c

    def init(name, target):
        def f(self):
            w.step(name, False)
            xs = w.add(["b"], False) if target else []
            w.end(type(self), name)
            return xs[0] if target else None

        f.__name__ = name
        return initialize(**({"target": b} if target else {}))(f)

    for name in inits:
        ns[name] = init(name, name == "init_b")

    def define(name, kind, **deco):
        guarded = "guarded" in name

        def f(self, **kw):
            w.step(name, guarded)
            for k in sorted(kw):
                bundle, consume = kind[k]
                for v in kw[k] if isinstance(kw[k], list) else [kw[k]]:
                    w.take(bundle, v, consume)
            r = None
            if "targets" in deco:
                many = "many" in name
                xs = w.add([t.name for t in deco["targets"]], many)
                r = multiple(*xs) if many else xs[0]
            w.end(type(self), name)
            return r

        f.__name__ = name
        g = f
        if guarded:
            g = precondition(lambda self: w.flag["rule"])(g)
        return rule(**deco)(g)

    parts = {
        "plain": lambda: define("plain", {}),
        "guarded": lambda: define("guarded", {}),
        "add": lambda: define("add", {}, targets=(b,)),
        "many": lambda: define("many", {}, targets=(b,)),
        "add_both": lambda: define("add_both", {}, targets=(b, c)),
        "add_c": lambda: define("add_c", {}, targets=(c,)),
        "use": lambda: define("use", {"x": ("b", False)}, x=b),
        "take": lambda: define("take", {"x": ("b", True)}, x=consumes(b)),
        "take_two": lambda: define("take_two", {"x": ("b", True), "y": ("b", True)}, x=consumes(b), y=consumes(b)),
        "take_use": lambda: define("take_use", {"x": ("b", True), "y": ("b", False)}, x=consumes(b), y=b),
        "eager": lambda: define("eager", {"x": ("c", True)}, x=eager),
        "move": lambda: define("move", {"x": ("b", True)}, targets=(c,), x=consumes(b)),
        "guarded_use": lambda: define("guarded_use", {"x": ("b", False)}, x=b),
        "use_list": lambda: define("use_list", {"x": ("b", False)}, x=lists(b, max_size=2)),
        "take_list": lambda: define("take_list", {"x": ("b", True)}, x=lists(consumes(b), max_size=2)),
    }
    for name in rules:
        ns[name] = parts[name]()

    def inv(name, during, guarded):
        def f(self):
            env.check(w.due is not None and name in w.due, "an invariant is checked although its precondition does not hold, initialization is pending, or twice")
            if w.due and name in w.due:
                w.due.remove(name)
            if w.raising and env.bool("fails"):
                w.over = True
                raise Boom

        f.__name__ = name
        g = f
        if guarded:
            g = precondition(lambda self: w.flag["invariant"])(g)
        return invariant(check_during_init=during)(g)

    table = {"always": (False, False), "sometimes": (False, True), "from_start": (True, False)}
    for name in invariants:
        ns[name] = inv(name, *table[name])

    def teardown(self):
        w.torn += 1
        env.check(w.torn == 1, "teardown is run twice")

    def init_(self):
        RBSM.__init__(self)
        w.invariants_due(type(self))

    ns.update(teardown=teardown, __init__=init_, INVARIANTS={n: table[n] for n in invariants}, GUARDED=[n for n in rules if "guarded" in n])
    return type(RBSM)("Machine", (RBSM,), ns)


def provider(env):
    class P(draw.provider_class(env)):
        def draw_integer(self, min_value=None, max_value=None, **kw):
            if (min_value, max_value) == (0, 254):
                return env.options("how many rules are disabled", (0, 100))
            return super().draw_integer(min_value, max_value, **kw)

    return P


NEEDS = {"use": "b", "take": "b", "take_two": "b", "take_use": "b", "move": "b", "guarded_use": "b", "eager": "c"}


def runs(env, rules, inits=(), invariants=(), steps=2, raising=False, cut=None):
    """one run on arbitrary choices"""
    CD, BC, HC = need("hypothesis.internal.conjecture.data", "ConjectureData"), need("hypothesis.control", "BuildContext"), need("hypothesis", "HealthCheck")
    Stop, Def = need("hypothesis.errors", "StopTest", "InvalidDefinition")
    Data = need("hypothesis.strategies._internal.core", "DataObject")
    Settings = need("hypothesis", "settings")
    Unsat = need("hypothesis.errors", "UnsatisfiedAssumption")
    w = World(env, steps, inits, raising)
    M = machine(env, w, inits, rules, invariants)
    st = Settings(database=None, deadline=None, stateful_step_count=steps, suppress_health_check=list(HC))
    test = need(S, "get_state_machine_test")(M, settings=st)
    inner = test.hypothesis.inner_test
    data = CD(random=None, provider=provider(env), max_choices=cut)
    how = "finished"
    with BC(data, is_final=False):
        try:
            inner(M, data=Data(data))
        except Boom:
            how = "raised"
        except (Stop, Unsat):
            how = "stopped"
        except Def:
            how = "stuck"
    env.check(w.torn == 1, "teardown is not run exactly once")
    env.check((how == "raised") == w.over, "an exception of a step or invariant is lost")
    if how == "finished":
        env.check(not w.due, "an invariant was not checked after the last step, or initially")
    if how == "stuck":
        for r in rules:
            env.check((r in NEEDS and not w.bundles[NEEDS[r]]) or ("guarded" in r and not w.flag["rule"]), "a run is given up although a rule applies")
    env.reach(how)


RULES = {
    "add use": ("add", "use"),
    "add take": ("add", "take"),
    "many take": ("many", "take"),
    "add two": ("add", "take_two"),
    "add take and use": ("add", "take_use"),
    "move": ("add", "move", "eager"),
    "both": ("add_both", "take", "eager"),
    "consuming bundle": ("add_c", "eager"),
    "guarded": ("plain", "guarded"),
    "guarded use": ("add", "guarded_use"),
    "only guarded": ("guarded",),
    "lists": ("add", "use_list"),
    "consumed lists": ("many", "take_list"),
}
OBLIGATIONS = [
    *[Ob(f"{n}, {s} steps", runs, rules=r, steps=s) for n, r in RULES.items() for s in (1, 3)],
    *[Ob(f"{n}, 4 steps", runs, 100, tier="thorough", rules=r, steps=4) for n, r in RULES.items()],
    *[Ob(f"initialize {' '.join(i)}, {n}, {s} steps", runs, inits=i, rules=RULES[n], invariants=("always", "from_start"), steps=s) for i in (("init_a",), ("init_b",), ("init_a", "init_b")) for n in ("guarded", "add take") for s in (1, 3)],
    *[Ob(f"invariants {' '.join(v)}, {' '.join(i) or 'no initialize'}, {n}{', raising' if x else ''}", runs, inits=i, rules=RULES[n], invariants=v, raising=x, steps=2) for v in (("always", "sometimes"), ("from_start",), ("sometimes", "from_start")) for i in ((), ("init_a", "init_b")) for n in ("guarded", "add use") for x in (False, True)],
    *[Ob(f"raising, {n}", runs, rules=r, raising=True, steps=2) for n, r in RULES.items()],
    *[Ob(f"running out after {c}, {n}", runs, rules=RULES[n], cut=c, inits=("init_b",), invariants=("always",), steps=3) for n, c in (("add take", 2), ("add take", 5), ("guarded", 4), ("consumed lists", 7))],
]

quick_plan(
    OBLIGATIONS,
    deep={
        "consumed lists, 3 steps",
        "many take, 3 steps",
        "move, 3 steps",
        "invariants always sometimes, no initialize, guarded, raising",
        "invariants sometimes from_start, no initialize, guarded, raising",
        "invariants always sometimes, no initialize, add use, raising",
        "guarded use, 3 steps",
        "raising, both",
        "raising, move",
        "raising, many take",
    },
)
