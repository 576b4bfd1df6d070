"""C16: targeted search keeps the best scores and a true Pareto front."""

from symx.api import Ob, need, quick_plan

BOUNDS = (
    "results of up to 2 integer choices in 0..7 with arbitrary integer scores for two targets (each possibly unobserved), every outcome, two failure origins and two tags; dominance on every pair and "
    "triple of them; fronts built from every sequence of 3 (thorough 4) results under every random choice; hill climbing from every start with up to 3 (thorough 5) executions that return "
    "results of arbitrary score, outcome and size before the engine runs out; Pareto optimisation of a front of up to 2 results with up to 2 executions per shrink"
)
OUTSIDE = (
    "fronts of more than ten elements (documented as approximate), span replacement with more than one span, float and bytes choices in hill climbing beyond one step, "
    "that the random choices are random"
)
ASSUMPTIONS = ["the test is deterministic: equal choices give equal results", "scores are integers (comparisons are the only operations on them)"]
OPTS = {"ints": "int", "symset": True, "symdict": True, "unhashable": True}
P = "hypothesis.internal.conjecture.pareto"
D = "hypothesis.internal.conjecture.data"


def build(env, values, status, scores, origin=None, tags=(), kinds=None, choices=None):
    """the result of executing a test with these choices, made by the real thing"""
    CD, St, Stop = need(D, "ConjectureData", "Status", "StopTest")
    data = CD.for_choices(tuple(values))
    for v in values:
        data.draw_integer(0, 7)
    data.target_observations = scores
    data.tags.update(tags)
    data.events = {}
    if status is St.VALID:
        data.freeze()
    else:
        try:
            data.conclude_test(status, *([origin] if status is St.INTERESTING else []))
        except Stop:
            pass
    return data.as_result()


class Case:
    def __init__(self, env, sizes=(1, 2), extra=True, statuses=None, targets=("x", "y"), observed=True):
        St = need(D, "Status")
        self.env = env
        self.values = [env.int("v", 0, 7) for _ in range(env.options("size", sizes))]
        self.status = env.options("status", statuses or (St.VALID, St.INTERESTING))
        self.origin = env.options("origin", ("A", "B")) if self.status is St.INTERESTING else None
        self.scores = {t: env.int("score") for t in targets if not observed or env.bool("observed")}
        self.tags = frozenset(t for t in ("s", "t") if extra and env.bool("tag"))
        self.result = build(env, self.values, self.status, dict(self.scores), self.origin, self.tags)

    def simpler(self, o):
        """strictly before the other in the simplicity order"""
        env = self.env
        if len(self.values) != len(o.values):
            return len(self.values) < len(o.values)
        r = False
        for a, b in zip(reversed(self.values), reversed(o.values)):
            r = env.Or(a < b, env.And(a == b, r))
        return r

    def equal(self, o):
        return len(self.values) == len(o.values) and self.env.And(*[a == b for a, b in zip(self.values, o.values)])

    def same_result(self, o):
        env = self.env
        if self.status != o.status or self.origin != o.origin or self.tags != o.tags or set(self.scores) != set(o.scores):
            return False
        return env.And(*[self.scores[t] == o.scores[t] for t in self.scores])

    def dominates(self, o):
        env, s = self.env, self.simpler(o)
        St = need(D, "Status")
        if self.status < o.status or not o.tags <= self.tags:
            return False
        if self.status is St.INTERESTING and self.origin != o.origin:
            return False
        for t in sorted(set(self.scores) | set(o.scores)):
            if t not in self.scores:
                return False
            if t in o.scores:
                s = env.And(s, self.scores[t] >= o.scores[t])
        return s


def deterministic(env, cases):
    for i, a in enumerate(cases):
        for b in cases[:i]:
            env.assume(env.Implies(a.equal(b), a.same_result(b)))


def relation(env, one, two):
    """dominance is as documented, from either side"""
    dom, R = need(P, "dominance", "DominanceRelation")
    St = need(D, "Status")
    a, b = (Case(env, statuses=(getattr(St, s),), targets=("x",), extra=one == two, sizes=(1,) if one == two else (1, 2), observed=one != two or one == "VALID") for s in (one, two))
    deterministic(env, (a, b))
    r, q = dom(a.result, b.result), dom(b.result, a.result)
    env.check(env.Iff(r is R.EQUAL, a.equal(b)), "equal is not the same as having the same choices")
    env.check(env.Iff(r is R.LEFT_DOMINATES, a.dominates(b)), "the left one dominates although something of it is worse, or not although nothing is")
    env.check(env.Iff(r is R.RIGHT_DOMINATES, b.dominates(a)), "the right one dominates although something of it is worse, or not although nothing is")
    mirror = {R.LEFT_DOMINATES: R.RIGHT_DOMINATES, R.RIGHT_DOMINATES: R.LEFT_DOMINATES}
    env.check(q is mirror.get(r, r), "dominance depends on the order of its arguments")
    env.reach(r.name)


def two_targets(env):
    dom, R = need(P, "dominance", "DominanceRelation")
    a, b = (Case(env, sizes=(1,), extra=False) for _ in range(2))
    deterministic(env, (a, b))
    r = dom(a.result, b.result)
    env.check(env.Iff(r is R.LEFT_DOMINATES, a.dominates(b)), "the left one dominates although a score of it is worse, or not although nothing is")
    env.check(env.Iff(r is R.RIGHT_DOMINATES, b.dominates(a)), "the right one dominates although a score of it is worse, or not although nothing is")


def transitive(env, statuses):
    dom, R = need(P, "dominance", "DominanceRelation")
    St = need(D, "Status")
    cs = [Case(env, sizes=(1,), extra=False, statuses=[getattr(St, x) for x in statuses], targets=("x",)) for _ in range(3)]
    deterministic(env, cs)
    a, b, c = (x.result for x in cs)
    if dom(a, b) is R.LEFT_DOMINATES and dom(b, c) is R.LEFT_DOMINATES:
        env.reach("chain")
        env.check(dom(a, c) is R.LEFT_DOMINATES, "dominance is not transitive")


class Dice:
    """a random source that may return anything"""

    def __init__(self, env):
        self.env = env

    def randrange(self, a, b=None):
        a, b = (0, a) if b is None else (a, b)
        return a + self.env.choose("random", b - a)

    def randint(self, a, b):
        return self.randrange(a, b + 1)


def check_front(env, front, cases, evicted=None, msg=""):
    kept = [c for c in cases if any(c.result is r for r in front)]
    env.check(len(list(front)) == len(kept), "the front holds something that was not added" + msg)
    for a in kept:
        for b in kept:
            if a is not b:
                env.check(env.Not(a.dominates(b)), "a kept test case is dominated by another one" + msg)
                env.check(env.Not(a.equal(b)), "a test case is kept twice" + msg)
    for c in cases:
        if c not in kept:
            env.check(env.Or(*[env.Or(k.dominates(c), k.equal(c)) for k in kept]), "a test case was dropped although no kept one dominates it" + msg)
    return kept


def front(env, n, status=None, extra=False, targets=("x", "y"), sizes=(1,), observed=True):
    PF = need(P, "ParetoFront")
    St = need(D, "Status")
    f = PF(Dice(env))
    evicted = []
    f.on_evict(evicted.append)
    cases = []
    for _ in range(n):
        cases.append(Case(env, sizes, extra, statuses=status and [getattr(St, s) for s in status], targets=targets, observed=observed))
    deterministic(env, cases)
    seen = []
    before = []
    for c in cases:
        evicted.clear()
        r = f.add(c.result)
        if c.status < St.VALID:
            env.check(not r, "an invalid test case was added to the front")
            continue
        seen.append(c)
        kept = check_front(env, f, seen)
        env.check(env.Iff(r, env.Or(*[c.equal(k) for k in kept])), "add() does not tell whether the test case is in the front")
        env.check(env.Iff(r, c.result in f), "membership does not agree with what add() returned")
        gone = [k for k in before if k not in kept]
        env.check(len(gone) == len(evicted) and all(any(g.result is e for e in evicted) for g in gone), "eviction listeners were told of something else than what was evicted")
        before = kept
        env.reach(f"kept {len(kept)}")
    if len(f) > 1:
        ks = [next(c for c in seen if c.result is r) for r in f]
        for a, b in zip(ks, ks[1:]):
            env.check(a.simpler(b), "the front is not in the simplicity order")


# --- hill climbing ---


class Engine:
    """executes anything: the outcome, the score and the number of choices made are arbitrary"""

    def __init__(self, env, start, budget, kind, target):
        self.env = env
        self.budget = budget
        self.results = [start]
        self.kind = kind
        self.target = target
        self.permitted = need("hypothesis.internal.conjecture.choice", "choice_permitted")

    def cached_test_function(self, choices, extend=0):
        env = self.env
        St, Overrun = need(D, "Status", "Overrun")
        env.check(len(choices) >= 1, "an empty test case is tried")
        if self.budget == 0:
            return Overrun
        self.budget -= 1
        at_least = 1
        for r in self.results:
            p = 0
            for c, n in zip(choices, r.nodes):
                if not env.same(c, n.value):
                    break
                p += 1
            if p == len(r.nodes):
                return r  # the same test case, followed by unused choices
            at_least = max(at_least, p + 1)
        if at_least > len(choices) and not extend:
            return Overrun
        r = execute(env, self.kind, choices, self.target, at_least, extend)
        self.results.append(r)
        return r


def execute(env, kind, choices, target, at_least=None, extend=0):
    """a test that draws at least this many choices, and may then stop or go on for one more"""
    CD, St, Stop = need(D, "ConjectureData", "Status", "StopTest")
    choices = list(choices)
    if at_least is not None:
        if at_least > len(choices):
            choices.append(start_value(env, kind))
        n = at_least + env.choose("draws more", len(choices) - at_least + 1)
        choices = choices[:n]
    data = CD.for_choices(tuple(choices))
    for _ in choices:
        if kind == "integer":
            data.draw_integer(-3, 7)
        elif kind == "boolean":
            data.draw_boolean(0.5)
        elif kind == "bytes":
            data.draw_bytes(0, 1)
        else:
            data.draw_float(0.0, 8.0)
    data.events = {}
    if env.bool("observed"):
        data.target_observations[target] = env.int("score")
    status = env.options("status", (St.VALID, St.INVALID, St.INTERESTING))
    if status is St.VALID:
        data.freeze()
    else:
        try:
            data.conclude_test(status, *(["A"] if status is St.INTERESTING else []))
        except Stop:
            pass
    return data.as_result()


def start_value(env, kind):
    if kind == "integer":
        return env.int("v", -3, 7)
    if kind == "boolean":
        return env.bool("v")
    if kind == "bytes":
        return env.bytes("v", env.choose("len", 2))
    x = env.float("v")
    env.assume(env.And(x >= 0.0, x <= 8.0))
    return x


def climb(env, kind, n, runs):
    O = need("hypothesis.internal.conjecture.optimiser", "Optimiser")
    St = need(D, "Status")
    start = execute(env, kind, [start_value(env, kind) for _ in range(n)], "t")
    if start.status is not St.VALID:
        env.cut("targets are optimised from valid test cases")
    e = Engine(env, start, runs, kind, "t")
    o = O(e, start, "t")
    o.run()
    end = o.current_data
    env.check(any(end is r for r in e.results), "hill climbing ends on a test case that was not executed")
    env.check(end.status >= St.VALID, "hill climbing ends on an invalid test case")
    a, b = start.target_observations, end.target_observations
    env.check(env.Or("t" not in a, env.And("t" in b, b["t"] >= a["t"] if "t" in a and "t" in b else False)), "hill climbing ends on a lower score than it started from")
    if "t" in b:
        for r in e.results:
            if r.status >= St.VALID and "t" in r.target_observations:
                env.check(r.target_observations["t"] <= b["t"], "hill climbing ends on a lower score than it has seen")
    env.reach("climbed")
    if end is not start:
        env.reach("moved")


def consider(env):
    """one candidate: taken if it is better, or as good and no longer"""
    O = need("hypothesis.internal.conjecture.optimiser", "Optimiser")
    St = need(D, "Status")
    a = Case(env, statuses=(St.VALID,), targets=("x",), extra=False)
    b = Case(env, statuses=(St.INVALID, St.VALID, St.INTERESTING), targets=("x",), extra=False)
    o = O(None, a.result, "x")
    took = o.consider_new_data(b.result)
    env.check(took == (o.current_data is b.result), "what is returned does not tell whether the candidate was taken")
    env.check(env.Implies(took, b.status >= St.VALID), "an invalid candidate was taken")
    if took and "x" in a.scores:
        env.check("x" in b.scores and b.scores["x"] >= a.scores["x"], "a candidate with a lower score was taken")
    if b.status >= St.VALID and "x" in b.scores:
        env.check(env.Implies(env.Or("x" not in a.scores, b.scores["x"] > a.scores.get("x", 0)), took), "a candidate with a higher score was not taken")


# --- the optimiser of the front ---


def optimise(env, n, tries):
    PF, PO, dom, R = need(P, "ParetoFront", "ParetoOptimiser", "dominance", "DominanceRelation")
    f = PF(Dice(env))
    cases = [Case(env, (1,), extra=False, statuses=(need(D, "Status").VALID,), targets=("x",), observed=False) for _ in range(n)]
    deterministic(env, cases)
    for c in cases:
        f.add(c.result)

    class Fake:
        pareto_front = f
        interesting_examples = ()
        left = 1

        def shrink(self, target, *, allow_transition):
            current = next(c for c in cases if c.result is target)
            for _ in range(tries if self.left > 0 else 0):
                c = Case(env, (1,), extra=False, statuses=(need(D, "Status").VALID,), targets=("x",), observed=False)
                for k in cases:
                    env.assume(env.Implies(c.equal(k), c.same_result(k)))
                cases.append(c)
                f.add(c.result)
                if c.simpler(current):
                    ok = allow_transition(current.result, c.result)
                    env.check(env.Iff(ok, c.dominates(current)), "a step to a test case that does not dominate was allowed, or one to a dominating test case was not")
                    if ok:
                        current = c
                        env.reach("step")
            self.left -= 1
            return current.result

    PO(Fake()).run()
    check_front(env, f, cases, msg=" (after optimising)")
    env.reach("optimised")


STATUS = ("INVALID", "VALID", "INTERESTING")
KINDS = ("integer", "boolean", "bytes")
OBLIGATIONS = [
    *[Ob(f"dominance, {a.lower()} and {b.lower()}", relation, 90, one=a, two=b, opts=OPTS) for a in STATUS for b in STATUS],
    Ob("dominance, two targets", two_targets, 40, opts=OPTS),
    Ob("dominance is transitive", transitive, 60, statuses=("VALID",), opts=OPTS),
    Ob("dominance of failures is transitive", transitive, 150, tier="thorough", statuses=("VALID", "INTERESTING"), opts=OPTS),
    Ob("front of 2", front, 60, n=2, opts=OPTS, targets=("x",), status=("INVALID", "VALID", "INTERESTING"), observed=False),
    Ob("front of 2, tags", front, 60, n=2, opts=OPTS, extra=True, targets=("x",), status=("VALID",), observed=False),
    Ob("front of 2, sizes", front, 60, n=2, opts=OPTS, targets=("x",), status=("VALID",), sizes=(1, 2), observed=False),
    Ob("front of 3", front, 60, n=3, opts=OPTS, status=("VALID",), targets=("x",), observed=False),
    Ob("front of 3 with failures", front, 150, tier="thorough", n=3, opts=OPTS, status=("VALID", "INTERESTING"), targets=("x",), observed=False),
    Ob("front of 3, two targets", front, 150, tier="thorough", n=3, opts=OPTS, status=("VALID",), observed=False),
    Ob("front of 2, two targets", front, 60, n=2, opts=OPTS, status=("VALID",)),
    Ob("front of 4", front, 90, tier="thorough", n=4, opts=OPTS, status=("VALID",), targets=("x",), observed=False),
    Ob("front of 3, everything", front, 150, tier="thorough", n=3, opts=OPTS, status=("VALID", "INTERESTING"), extra=True),
    Ob("one candidate", consider, 40, opts=OPTS),
    *[Ob(f"climbing, {k}", climb, 60, kind=k, n=1, runs=3, opts=OPTS) for k in KINDS],
    *[Ob(f"climbing, two {k}s", climb, 60, kind=k, n=2, runs=1 if k == "integer" else 2, opts=OPTS) for k in KINDS],
    *[Ob(f"climbing further, {k}", climb, 150, tier="thorough", kind=k, n=2, runs=5, opts=OPTS) for k in KINDS],
    Ob("climbing, float", climb, 150, tier="thorough", kind="float", n=1, runs=2, opts={k: v for k, v in OPTS.items() if k != "ints"}),
    Ob("optimising the front", optimise, 60, n=1, tries=1, opts=OPTS),
    Ob("optimising a front of 2", optimise, 60, n=2, tries=1, opts=OPTS),
    Ob("optimising further", optimise, 150, tier="thorough", n=2, tries=2, opts=OPTS),
]

quick_plan(
    OBLIGATIONS,
    deep={
        "dominance, valid and interesting",
        "dominance, invalid and interesting",
        "dominance, valid and invalid",
        "climbing, integer",
        "front of 2, sizes",
    },
)
