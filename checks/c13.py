"""C13: failures saved to the database are replayed first, and stale entries are cleared."""

from symx.api import Ob, need

from checks import eng
from checks.c08 import random_values
from checks.c10 import before
from checks.eng import OPTS, Body

BOUNDS = (
    "every test body of up to two requests of up to three integers (or booleans), decided as it is executed; every primary corpus of up to 3 entries, and secondary corpora of up to 2, of up to two choices each, "
    "which may fit the requests or not, be too short or too long, or not be decodable; every set of phases; max_examples up to 3; every random decision; and two consecutive runs from an empty database, with the same body or another one"
)
OUTSIDE = "larger corpora, from which the engine takes a sample, the Pareto corpus, alternative backends, flaky tests, whole runs of more than 12 executions"
ASSUMPTIONS = [
    "the database is a map from keys to sets (decided by C12)",
    "fresh choices are arbitrary permitted values (decided by C06), in whole runs always the same for each request from the third on",
]
D = "hypothesis.internal.conjecture.data"
E = "hypothesis.internal.conjecture.engine"
DB = "hypothesis.database"
KEY = b"key"


class Store:
    """a map from keys to sets, which remembers its history"""

    def __init__(self):
        self.d = {}

    def fetch(self, key):
        return list(self.d.get(key, ()))

    def save(self, key, value):
        xs = self.d.setdefault(key, [])
        if not any(x == value for x in xs):
            xs.append(value)

    def delete(self, key, value):
        self.d[key] = [x for x in self.d.get(key, []) if not x == value]

    def move(self, src, dest, value):
        self.delete(src, value)
        self.save(dest, value)

    def has(self, key, value):
        return any(x == value for x in self.d.get(key, ()))


class Logged(Body):
    """knows which choices each execution was started from"""

    def __call__(self, data):
        n = len(self.log)
        try:
            super().__call__(data)
        finally:
            self.runs.append((data.prefix, self.log[n][1] if len(self.log) > n else "overrun", data))

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.runs = []


def same_choices(env, a, b):
    return len(a) == len(b) and all(type(x) is type(y) for x, y in zip(a, b)) and bool(env.And(*[env.same(x, y) for x, y in zip(a, b)]))


def outcome(env, body, entry):
    """how the test ends from these choices: from its execution, or that of the choices they come down to"""
    for prefix, how, data in body.runs:
        if prefix is not None and not any(isinstance(x, need("hypothesis.internal.conjecture.choice", "ChoiceTemplate")) for x in prefix) and same_choices(env, tuple(prefix), tuple(entry)):
            return how, data
    CD = need(D, "ConjectureData")
    d = CD.for_choices(tuple(entry))
    node = body.root
    while node is not None and node.action is not None:
        if node.action[0] == "end":
            return (node.action[1], None) if node.ended else (None, None)
        try:
            v = getattr(d, "draw_" + node.action[1])(**node.action[2])
        except need("hypothesis.errors", "StopTest"):
            return None, None
        node = node.child(env, v)
    return None, None


def entries(env, n, kinds=("int",), lengths=(1, 2), undecodable=False):
    """arbitrary stored test cases, different from one another"""
    to_bytes = need(DB, "choices_to_bytes")
    r = []
    for _ in range(n):
        if undecodable and env.bool("undecodable"):
            r.append((None, bytes([0b000_00001, 255])))  # a boolean of two bytes
            continue
        xs = tuple(env.int("stored", -1, 3) if env.options("kind", kinds) == "int" else env.bool("stored") for _ in range(env.options("length", lengths)))
        r.append((xs, to_bytes(xs)))
    for i, a in enumerate(r):
        for b in r[:i]:
            env.assume(env.Not(a[1] == b[1]) if len(a[1]) == len(b[1]) else True)
    return r


def fill(env, n, m=0, **kw):
    db = Store()
    stored = entries(env, n + m, **kw)
    for _, b in stored[:n]:
        db.save(KEY, b)
    for _, b in stored[n:]:
        db.save(KEY + b".secondary", b)
    return db, stored[:n], stored[n:]


def start(env, db, body, n, off=(), multiple=True):
    Phase = need("hypothesis", "Phase")
    phases = tuple(p for p in Phase if p.name not in off and p.name not in ("explain", "target"))
    HC = need("hypothesis", "HealthCheck")
    st = eng.settings(env, max_examples=n, phases=phases, report_multiple_bugs=multiple)
    object.__setattr__(st, "_database", db)
    r = eng.runner(env, body, st, database_key=KEY)
    return r


def replay_first(env, body, r, primary, multiple):
    """the primary corpus was executed first, in order of size"""
    Status = need(D, "Status")
    pending = [e for e in primary if e[0] is not None]
    pending.sort(key=lambda e: (len(e[1]), e[1]))
    failed = False
    i = 0
    for choices, b in pending:
        if failed and not multiple:
            break
        if i < len(body.runs) and body.runs[i][0] is not None and same_choices(env, tuple(body.runs[i][0]), tuple(choices)):
            how = body.runs[i][1]
            i += 1
        else:
            how, _ = outcome(env, body, choices)
            env.check(how is not None or not r.is_going_on, "a stored failure was not executed before anything else")
        if how == "A" or how == "B":
            failed = True
    return failed


def after(env, db, body, primary, ended):
    """what is left of the primary corpus"""
    from_bytes = need(DB, "choices_from_bytes")
    left = db.fetch(KEY)
    for choices, b in primary:
        kept = db.has(KEY, b)
        if choices is None:
            env.check(not kept or ended, "an entry that cannot be decoded was kept")
            continue
        how, data = outcome(env, body, choices)
        if how is None:
            env.check(kept, "an entry that was not executed was dropped")
        elif how in ("A", "B"):
            env.reach("still fails")
            if not kept:
                better = False
                for x in left:
                    c = from_bytes(x)
                    h, d = outcome(env, body, c)
                    if h == how and d is not None and (data is None or same_or_before(env, d.nodes, data.nodes)):
                        better = True
                env.check(better, "an entry that still fails was dropped without a simpler one being stored")
        else:
            env.check(not kept, "an entry that no longer fails was kept")
            env.reach("stale")


def same_or_before(env, a, b):
    return bool(env.Or(before(env, a, b), env.Not(before(env, b, a))))


def replays(env, n=1, m=0, max_examples=2, off=(), ends=("valid", "invalid", "A"), depth=1, requests=("int2",), multiple=True, kinds=("int",), lengths=(1, 2), undecodable=False, limit=10):
    """one run on an arbitrary corpus"""
    db, primary, secondary = fill(env, n, m, kinds=kinds, lengths=lengths, undecodable=undecodable)
    body = Logged(env, requests, depth, ends)
    body.limit = limit
    r = start(env, db, body, max_examples, off, multiple)
    with random_values(env):
        r.run()
    if "reuse" in off:
        for _, b in primary:
            env.check(db.has(KEY, b), "the corpus was changed although it is not reused")
        return
    r.is_going_on = r.valid_examples < max_examples and not r.tree.is_exhausted
    failed = replay_first(env, body, r, primary, multiple)
    if multiple:
        after(env, db, body, primary, False)
    if multiple:
        more(env, db, body, r, primary, secondary, failed, max_examples, off)
    stored(env, db, r, body)
    if failed:
        env.check(r.interesting_examples, "a stored failure happened again but is not reported")
        env.reach("reproduced")


def more(env, db, body, r, primary, secondary, failed, max_examples, off):
    """entries of the secondary corpus"""
    SEC = KEY + b".secondary"
    room = max(2, -(-max_examples // 10) if "generate" not in off else max_examples) - len(primary)
    for choices, b in secondary:
        how, _ = outcome(env, body, choices)
        if how is None:
            env.check(failed or room < len(secondary) or not r.is_going_on, "an entry of the secondary corpus was not tried although no other failure is known")
        elif how not in ("A", "B"):
            env.check(not db.has(SEC, b), "an entry of the secondary corpus that does not fail was kept")
            env.reach("stale secondary entry")


def stored(env, db, r, body):
    """the reported test cases are in the primary corpus"""
    to_bytes = need(DB, "choices_to_bytes")
    for o in sorted(r.interesting_examples):
        env.check(db.has(KEY, to_bytes(r.interesting_examples[o].choices)), "the simplest failing test case is not in the database")


def twice(env, max_examples=2, ends=("valid", "A"), depth=1, requests=("int3",), changed=False, limit=8, multiple=True):
    """a run from an empty database, and the next one"""
    db = Store()
    first = Logged(env, requests, depth, ends)
    first.limit = limit
    r = start(env, db, first, max_examples, multiple=multiple)
    with random_values(env):
        r.run()
    stored(env, db, r, first)
    origins = list(r.interesting_examples)
    if not origins:
        env.check(not db.fetch(KEY), "something is stored although nothing failed")
        env.reach("no failure")
        return
    from_bytes = need(DB, "choices_from_bytes")
    primary = [(from_bytes(b), b) for b in db.fetch(KEY)]
    if changed:
        second = Logged(env, requests, depth, ends)
    else:
        second = first
        first.log, first.runs, first.started = [], [], 0
    second.limit = limit
    q = start(env, db, second, max_examples, multiple=multiple)
    with random_values(env):
        q.run()
    q.is_going_on = True if not changed else q.valid_examples < max_examples and not q.tree.is_exhausted
    replay_first(env, second, q, primary, multiple)
    if not changed:
        again = [o for o in sorted(r.interesting_examples) if o in q.interesting_examples]
        env.check(again if not multiple else len(again) == len(origins), "a stored failure did not happen again")
        for o in again:
            env.check(same_or_before(env, q.interesting_examples[o].nodes, r.interesting_examples[o].nodes) or not multiple, "the failure is reported with a less simple test case than before")
        env.reach("reproduced")
    if multiple:
        after(env, db, second, primary, False)
    stored(env, db, q, second)


OBLIGATIONS = [
    Ob("one entry", replays, n=1, opts=OPTS),
    Ob("one entry of any kind", replays, n=1, kinds=("int", "bool"), lengths=(0, 1), opts=OPTS),
    Ob("one entry, max_examples 1", replays, n=1, max_examples=1, opts=OPTS),
    Ob("two entries", replays, n=2, lengths=(1,), ends=("valid", "A"), opts=OPTS),
    Ob("two entries, two origins", replays, n=2, lengths=(1,), ends=("A", "B"), requests=("int3",), opts=OPTS),
    Ob("two entries, one bug reported", replays, n=2, lengths=(1,), ends=("A", "B", "valid"), multiple=False, opts=OPTS),
    Ob("undecodable entries", replays, n=2, lengths=(1,), undecodable=True, ends=("valid", "A"), opts=OPTS),
    Ob("secondary corpus", replays, n=1, m=1, lengths=(1,), ends=("valid", "A"), opts=OPTS),
    Ob("secondary corpus only", replays, n=0, m=2, lengths=(1,), ends=("valid", "A"), opts=OPTS),
    Ob("two requests", replays, n=1, depth=2, lengths=(1,), ends=("valid", "A"), opts=OPTS),
    Ob("two requests, any length", replays, 80, tier="thorough", n=1, depth=2, ends=("valid", "A"), opts=OPTS),
    Ob("two requests, two entries", replays, 100, tier="thorough", n=2, depth=2, ends=("valid", "A"), opts=OPTS),
    Ob("three entries", replays, 100, tier="thorough", n=3, lengths=(1,), ends=("valid", "A", "B"), requests=("int3",), opts=OPTS),
    *[Ob(f"without {x}", replays, n=2, lengths=(1,), ends=("valid", "A"), off=(x,), opts=OPTS) for x in ("reuse", "generate", "shrink")],
    Ob("only reuse", replays, n=2, lengths=(1,), ends=("valid", "invalid", "A"), off=("generate", "shrink"), opts=OPTS),
    Ob("two runs", twice, opts=OPTS),
    Ob("two runs, two requests", twice, depth=2, requests=("int2",), opts=OPTS),
    Ob("two runs, two origins", twice, ends=("A", "B"), opts=OPTS),
    Ob("two runs, one bug reported", twice, ends=("A", "B"), multiple=False, opts=OPTS),
    Ob("two runs, changed", twice, changed=True, requests=("int2",), opts=OPTS),
    Ob("two runs, changed, three values", twice, 100, tier="thorough", changed=True, ends=("valid", "A", "B"), limit=12, opts=OPTS),
    Ob("two runs, more", twice, 100, tier="thorough", ends=("valid", "A", "B"), depth=2, limit=12, max_examples=3, opts=OPTS),
]
