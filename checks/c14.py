"""C14: bounded caches return what was stored and evict by the documented policy."""

from symx.api import Ob, need, quick_plan

BOUNDS = (
    "GenericCache with arbitrary integer scores: sizes 1..3, histories of up to 4 arbitrary get/set/pin/unpin calls over "
    "size+1 keys after filling; sizes 4..7 with one re-scored entry and insertions that evict every entry in turn; "
    "LRUReusedCache sizes 1..3 and LRUCache sizes 1..3, histories of 5 arbitrary calls (thorough: 5 and 6 calls); stored values arbitrary"
)
OUTSIDE = "longer histories; the thread-local separation of caches"
ASSUMPTIONS = ["keys are hashable values with the usual equality"]
M = "hypothesis.internal.cache"
INT = {"ints": "int"}


class Model:
    """key -> [value, score, pins]"""

    def __init__(self, size):
        self.size = size
        self.d = {}

    def lowest(self, env, k, d):
        """k is unpinned in d and no unpinned entry of d has a smaller score"""
        if d[k][2] > 0:
            return False
        return env.And(*[d[k][1] <= e[1] for j, e in d.items() if e[2] == 0 and j != k])


class Driver:
    def __init__(self, env, size, cache, score=None):
        self.env = env
        self.c = cache
        self.m = Model(size)
        self.evicted = []
        self.n = 0

    def compare(self, keys):
        env, c, m = self.env, self.c, self.m
        env.check(len(c) == len(m.d), "number of entries")
        env.check(len(c) <= m.size, "more entries than the maximum")
        for k in keys:
            env.check((k in c) == (k in m.d), f"membership of a key")
        env.check(sorted(c) == sorted(m.d), "iteration does not give the keys")


def generic(env, size, nops, fill):
    GC = need(M, "GenericCache")
    scores = {}
    evicted = []
    nth = [0]

    def fresh():
        nth[0] += 1
        return env.int(f"score{nth[0]}")

    class C(GC):
        __slots__ = ()

        def new_entry(self, key, value):
            scores[key] = fresh()
            return scores[key]

        def on_access(self, key, value, score):
            env.check(score == scores[key], "on_access is told a wrong score")
            scores[key] = fresh()
            return scores[key]

        def on_evict(self, key, value, score):
            evicted.append((key, value, score))

    c = C(size)
    vals, pins = {}, {}

    def store(k, pin=False):
        before = dict(vals)
        sc = dict(scores)
        v = env.int("value")
        full = k not in vals and len(vals) >= size
        all_pinned = full and all(pins[j] > 0 for j in vals)
        del evicted[:]
        try:
            if pin:
                c.pin(k, v)
            else:
                c[k] = v
        except ValueError:
            env.reach("all pinned")
            env.check(all_pinned, "ValueError although there is an unpinned entry")
            env.check(len(c) == len(vals), "a refused insertion changed the cache")
            return
        env.check(not all_pinned, "an entry was inserted although all entries are pinned")
        if full:
            env.check(len(evicted) == 1, "exactly one entry must be evicted to make room")
            ek, ev, es = evicted[0]
            env.check(ek in before and pins[ek] == 0, "a pinned or unknown entry was evicted")
            env.check(env.And(ev == before[ek], es == sc[ek]), "on_evict is told a wrong value or score")
            for j in before:
                if j != ek and pins[j] == 0:
                    env.check(sc[ek] <= sc[j], "an entry was evicted although another unpinned one ranks lower")
            env.reach("evicted")
            del vals[ek], pins[ek]
        else:
            env.check(not evicted, "an entry was evicted although there was room")
        vals[k] = v
        pins.setdefault(k, 0)
        if pin:
            pins[k] += 1

    for k in range(fill):
        store(k)
    used = fill
    for _ in range(nops):
        op = env.options("op", ("set", "get", "pin", "unpin"))
        k = env.choose("key", min(used, size) + 1 if used <= size else size + 2)
        used = max(used, k + 1)
        if op == "get":
            try:
                v = c[k]
            except KeyError:
                env.check(k not in vals, "a stored entry was not found")
            else:
                env.check(k in vals, "an entry was found that is not stored")
                env.check(v == vals[k], "a lookup returned a value that is not the one stored last")
        elif op == "unpin":
            try:
                c.unpin(k)
            except KeyError:
                env.check(k not in vals, "unpin did not find a stored entry")
            except ValueError:
                env.check(k in vals and pins[k] == 0, "unpin refused a pinned entry")
            else:
                env.check(k in vals and pins[k] > 0, "unpin of an entry that is not pinned")
                pins[k] -= 1
        else:
            store(k, op == "pin")
        env.check(len(c) == len(vals), "number of entries")
        for j in range(size + 2):
            env.check((j in c) == (j in vals), "membership of a key")
        for j in vals:
            env.check(c.is_pinned(j) == (pins[j] > 0), "pinned state of a key")
    env.reach("end")
    for j in vals:
        env.check(c[j] == vals[j], "a lookup returned a value that is not the one stored last")


def heap(env, size):
    """fill, re-score one entry, then evict everything in turn"""
    GC = need(M, "GenericCache")
    scores, evicted = {}, []
    phase = [0]

    class C(GC):
        __slots__ = ()

        def new_entry(self, key, value):
            # late entries rank above all others, so that only the original ones are evicted
            scores[key] = env.int("score", 0, 1000) if phase[0] == 0 else 5000 + key
            return scores[key]

        def on_access(self, key, value, score):
            scores[key] = env.int("rescore", 0, 1000)
            return scores[key]

        def on_evict(self, key, value, score):
            evicted.append(key)

    c = C(size)
    for k in range(size):
        c[k] = k
        if k and size > 4:
            # an arbitrary but fixed relation to the parent keeps the number of orders down
            p = (k - 1) // 2
            env.assume(scores[k] >= scores[p])
    how = env.options("how", ("get", "pin", "none"))
    pinned = None
    if how == "get":
        c[env.choose("which", size)]
    elif how == "pin":
        pinned = env.choose("which", size)
        c.pin(pinned, 0)
    phase[0] = 1
    live = set(range(size)) - {pinned}
    for j in range(len(live)):
        del evicted[:]
        c[100 + j] = j
        env.check(len(evicted) == 1 and evicted[0] in live, "a wrong entry was evicted")
        for i in live:
            env.check(scores[evicted[0]] <= scores[i], "an entry was evicted although another one ranks lower")
        live -= set(evicted)
    env.reach("drained")
    if pinned is not None:
        env.check(pinned in c, "a pinned entry was evicted")


def lru(env, cls, size, nops):
    """both concrete caches against their documented policy"""
    C = need(M, cls)
    c = C(size)
    d = {}  # key -> [value, used, time, pins]
    t = 0
    used = 0
    reused = cls == "LRUReusedCache"
    ops = ("set", "get", "pin", "unpin") if reused else ("set", "get")
    for _ in range(nops):
        t += 1
        op = env.options("op", ops)
        k = env.choose("key", min(used + 1, size + 2))
        used = max(used, k + 1)
        if op == "get":
            try:
                v = c[k]
            except KeyError:
                env.check(k not in d, "a stored entry was not found")
            else:
                env.check(k in d, "an entry was found that is not stored")
                if k in d:
                    env.check(v == d[k][0], "a lookup returned a value that is not the one stored last")
                    d[k][1:3] = [2, t]
        elif op == "unpin":
            try:
                c.unpin(k)
            except (KeyError, ValueError):
                env.check(k not in d or d[k][3] == 0, "unpin refused a pinned entry")
            else:
                env.check(k in d and d[k][3] > 0, "unpin of an entry that is not pinned")
                d[k][3] -= 1
        else:
            v = env.int("value")
            if k not in d and len(d) >= size:
                free = [j for j in d if d[j][3] == 0]
                if not free:
                    try:
                        c.pin(k, v) if op == "pin" else c.__setitem__(k, v)
                    except ValueError:
                        env.reach("all pinned")
                        continue
                    env.check(False, "an entry was inserted although all entries are pinned")
                    continue
                out = min(free, key=lambda j: (d[j][1] if reused else 0, d[j][2]))
                del d[out]
                env.reach("evicted")
            if op == "pin":
                c.pin(k, v)
            else:
                c[k] = v
            if k in d:
                d[k] = [v, 2, t, d[k][3]]
            else:
                d[k] = [v, 1, t, 0]
            if op == "pin":
                d[k][3] += 1
        env.check(len(c) == len(d), "number of entries")
        for j in range(size + 2):
            env.check((j in c) == (j in d), "the entries kept are not the ones the policy keeps")
        env.check(sorted(c) == sorted(d), "iteration does not give the keys")
    env.reach("end")
    for j in list(d):
        env.check(c[j] == d[j][0], "a lookup returned a value that is not the one stored last")


def bad_size(env):
    for name in ("GenericCache", "LRUReusedCache"):
        C = need(M, name)
        n = env.int("n", None, 0)
        try:
            C(n)
        except Exception as e:
            env.reach("rejected")
            env.check(type(e).__name__ == "InvalidArgument", "wrong error for a cache without room")
        else:
            env.check(False, "a cache without room was accepted")


OBLIGATIONS = [
    *[Ob(f"generic size {s} ops {n} after {f}", generic, size=s, nops=n, fill=f, opts=INT, budget=60, thorough=600,
         tier="quick" if s + n < 6 else "thorough")
      for s, n, f in ((1, 4, 0), (2, 2, 0), (2, 3, 2), (3, 2, 3), (1, 5, 0), (2, 4, 2), (3, 3, 3), (3, 4, 3))],
    *[Ob(f"heap {s}", heap, size=s, opts=INT, budget=60, thorough=600, tier="quick" if s < 6 else "thorough") for s in (2, 3, 4, 5, 6, 7)],
    *[Ob(f"{c} size {s} ops {n}", lru, cls=c, size=s, nops=n, opts=INT, budget=60, thorough=600,
         tier="quick" if n <= (5 if c == "LRUCache" else 4) else "thorough")
      for c in ("LRUReusedCache", "LRUCache") for s in (1, 2, 3) for n in (4, 5, 6)],
    Ob("no room", bad_size, opts=INT),
]

quick_plan(
    OBLIGATIONS,
    budgets={
        "generic size 3 ops 2 after 3": 20,
        "generic size 2 ops 3 after 2": 20,
    },
)
