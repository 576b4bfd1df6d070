"""C29: automata agree with the languages they represent."""

import itertools
import math

from symx.api import Ob, need

BOUNDS = (
    "every automaton of up to 3 states (thorough 4) over two characters, or 2 states over three, decided as it is explored, in the general form and as dictionaries, pairs or ranges of characters with arbitrary ends; "
    "every string up to twice the number of states; pairs of automata of two states; every membership function for the learning of up to two strings of up to three (thorough four) of two characters, or of two of three"
)
OUTSIDE = "larger automata, longer strings, learning of more strings"
ASSUMPTIONS = []
A = "hypothesis.internal.conjecture.dfa"
L = "hypothesis.internal.conjecture.dfa.lstar"
OPTS = {"ints": "int"}
GONE = "gone"


def lazy(env, n, k):
    """an arbitrary automaton, decided as it is explored"""
    DFA = need(A, "DFA")

    class Lazy(DFA):
        def __init__(self):
            super().__init__()
            self.table, self.accept, self.seen = {}, {}, 1

        start = 0

        @property
        def alphabet(self):
            return range(k)

        def is_accepting(self, i):
            if i == GONE:
                return False
            if i not in self.accept:
                self.accept[i] = bool(env.bool("accepting"))
            return self.accept[i]

        def transition(self, i, c):
            if i == GONE or not 0 <= c < k:
                return GONE
            if (i, c) not in self.table:
                # states are numbered as they are found
                j = env.choose("to", min(n, self.seen + 1) + 1)
                if j == min(n, self.seen + 1):
                    j = GONE
                else:
                    self.seen = max(self.seen, j + 1)
                self.table[i, c] = j
            return self.table[i, c]

    return Lazy()


def concrete(env, n, k, form):
    """the same, as tables"""
    C = need(A, "ConcreteDFA")
    tables, accepting, seen = [], set(), 1
    for i in range(n):
        if i >= seen:
            break
        table = []
        for c in range(k):
            j = env.choose("to", min(n, seen + 1) + 1)
            if j < min(n, seen + 1):
                seen = max(seen, j + 1)
                table.append((c, j))
        if env.bool("accepting"):
            accepting.add(i)
        if form == "dict":
            table = dict(table)
        elif form == "ranges":
            merged = []
            for c, j in table:
                if merged and merged[-1][2] == j and merged[-1][1] == c - 1:
                    merged[-1] = (merged[-1][0], c, j)
                else:
                    merged.append((c, c, j))
            table = merged
        tables.append(table)
    return C(tables, accepting)


def run(d, q, s):
    for c in s:
        q = d.transition(q, c)
    return q


def language(d, q, k, n):
    """the accepted strings from q of every length up to n, in order"""
    return [[bytes(s) for s in itertools.product(range(k), repeat=m) if d.is_accepting(run(d, q, s))] for m in range(n + 1)]


def reachable(d, k):
    r = [d.start]
    for q in r:
        for c in range(k):
            j = d.transition(q, c)
            if j not in r:
                r.append(j)
    return r


def queries(env, n, k, what, form=None, first="spec"):
    """everything that is asked about an automaton"""
    d = lazy(env, n, k) if form is None else concrete(env, n, k, form)
    if what == "live":
        live = {}
        # asked from a state the exploration has not begun with, or the start
        qs = reachable(d, k) if env.bool("all known") else [d.start]
        if env.bool("backwards"):
            qs = qs[::-1]
        for q in qs:
            live[q] = d.is_live(q)
            env.check(d.is_dead(q) is (not live[q]), "a state is both dead and live, or neither")
        for q in qs:
            env.check(live[q] == any(language(d, q, k, n - 1)), "a state is live without any accepted string, or dead with one")
    elif what == "max_length":
        qs = reachable(d, k)
        if env.bool("backwards"):
            qs = qs[::-1]
        for q in qs:
            got = d.max_length(q)
            lengths = [m for m, x in enumerate(language(d, q, k, 2 * n - 1)) if x]
            want = math.inf if lengths and lengths[-1] >= n else lengths[-1] if lengths else 0
            env.check(got == want, "the maximum length is not that of the longest accepted string")
    elif what == "count":
        most = max(2 * n - 2, 2)
        for m in (range(most + 1) if env.bool("ascending") else range(most, -1, -1)):
            for q in reachable(d, k):
                got, has = d.count_strings(q, m), d.has_strings(q, m)
                want = len(language(d, q, k, m)[m])
                env.check(got == want, "the number of accepted strings is wrong")
                env.check(bool(has) == (want > 0), "whether there are accepted strings of a length is wrong")
    elif what == "strings":
        most = max(2 * n - 2, 2)
        every = language(d, d.start, k, most)
        for m in range(most + 1):
            env.check([bytes(x) for x in d.all_matching_strings_of_length(m)] == every[m], "the accepted strings of a length are not enumerated in order")
        first = env.options("from length", (0, 1, n))
        flat = [x for xs in every[first:] for x in xs]
        got = []
        for x in d.all_matching_strings(first):
            if len(x) > most:
                break
            got.append(bytes(x))
            if len(got) > len(flat):
                break
            if not d.max_length(d.start) < math.inf and len(got) == len(flat):
                break
        env.check(got == flat, "the accepted strings are not enumerated shortest first")
    elif what == "regions":
        s = bytes(env.choose("char", k + 1) for _ in range(env.options("length", range(n + 1))))
        got = d.all_matching_regions(s)
        want = [(u, v) for u in range(len(s) + 1) for v in range(u, len(s) + 1) if d.is_accepting(run(d, d.start, s[u:v]))]
        want = [(u, v) for u, v in want if u < len(s)]
        env.check(sorted(got) == want, "the matching regions are not the accepted substrings")
    elif what == "canonical":
        c = d.canonicalise()
        env.check(language(c, c.start, k, 2 * n - 1) == language(d, d.start, k, 2 * n - 1), "the canonical automaton accepts other strings")
        env.check(d.equivalent(c) and c.equivalent(d), "the canonical automaton is not equivalent")
    env.reach(what)


def pairs(env, n, m, k, form=None, other=None):
    """equivalence of two automata"""
    a = lazy(env, n, k) if form is None else concrete(env, n, k, form)
    b = lazy(env, m, k) if other is None else concrete(env, m, k, other)
    got = a.equivalent(b)
    if got:
        env.check(language(a, a.start, k, n + m) == language(b, b.start, k, n + m), "automata of different languages are equivalent")
        env.reach("equivalent")
    else:
        # the states visited in parallel separate them within n * m steps
        env.check(language(a, a.start, k, n + m) != language(b, b.start, k, n + m), "automata of the same language are not equivalent")
        env.reach("different")


def ranges(env, entries, length, states=2):
    """membership with arbitrary ranges of characters"""
    C = need(A, "ConcreteDFA")
    tables, spec = [], []
    for i in range(states):
        table = []
        for _ in range(entries):
            u = env.int("from", 0, 255)
            v = env.int("to", 0, 255)
            single = env.bool("single")
            env.assume(v == u if single else u <= v)
            j = env.choose("target", states)
            for x in spec[i:]:
                for p, q, _ in x:
                    env.assume(env.Or(v < p, q < u))
            if len(spec) <= i:
                spec.append([])
            spec[i].append((u, v, j))
            table.append((u, j) if single else (u, v, j))
        tables.append(table)
        if len(spec) <= i:
            spec.append([])
    accepting = {i for i in range(states) if env.bool("accepting")}
    d = C(tables, accepting)
    s = env.bytes("s", length)
    got = d.matches(s)
    q = 0
    for c in s:
        for u, v, j in spec[q]:
            if env.And(u <= c, c <= v):
                q = j
                break
        else:
            q = None
            break
    env.check(bool(got) == (q in accepting), "membership differs from following the transitions")
    env.reach("accepted" if got else "rejected")


def learning(env, chars, lengths, same=False, fixpoint=False):
    """whatever the language, what was learned last is known"""
    LStar = need(L, "LStar")
    table = {}

    def member(s):
        s = bytes(s)
        if s not in table:
            if len(table) >= 40:
                env.cut("more queries of the language than the bound")
            table[s] = bool(env.bool("member"))
        return table[s]

    l = LStar(member)
    strings = []
    for m in lengths:
        s = bytes(chars[env.choose("char", len(chars))] for _ in range(m))
        strings.append(s)
        l.learn(s)
        env.check(bool(l.dfa.matches(s)) == member(s), "the learned automaton is wrong about the string it was taught last")
    if fixpoint:
        for _ in range(6):
            g = l.generation
            for s in strings:
                l.learn(s)
            if l.generation == g:
                break
        else:
            env.cut("learning goes on")
        for s in strings:
            env.check(bool(l.dfa.matches(s)) == member(s), "the learned automaton is wrong about a string although learning has finished")
    env.reach("learned")


WHATS = ("live", "max_length", "count", "strings", "regions", "canonical")
OBLIGATIONS = [
    *[Ob(f"{w} of {n} states, {k} characters", queries, n=n, k=k, what=w, opts=OPTS) for w in WHATS for n, k in ((1, 2), (2, 2), (3, 1), (2, 1))],
    *[Ob(f"{w} of {n} states, {k} characters", queries, 100, tier="thorough", n=n, k=k, what=w, opts=OPTS) for w in WHATS for n, k in ((2, 3), (4, 1), (3, 2), (4, 2))],
    *[Ob(f"{w} of {n} states, {k} characters, {f}", queries, n=n, k=k, what=w, form=f, opts=OPTS) for w in WHATS for f, n, k in (("dict", 2, 2), ("pairs", 2, 2), ("ranges", 2, 2), ("ranges", 1, 5), ("pairs", 1, 5))],
    *[Ob(f"equivalence {n} {m} {k}", pairs, n=n, m=m, k=k, opts=OPTS) for n, m, k in ((1, 1, 2), (1, 2, 2), (2, 2, 1), (3, 2, 1), (2, 1, 2))],
    *[Ob(f"equivalence {n} {m} {k}", pairs, 100, tier="thorough", n=n, m=m, k=k, opts=OPTS) for n, m, k in ((2, 2, 2), (3, 3, 1), (4, 2, 1))],
    Ob("equivalence of tables", pairs, n=2, m=1, k=2, form="dict", other="ranges", opts=OPTS),
    *[Ob(f"ranges {e} length {n}", ranges, tier=t, entries=e, length=n, opts=OPTS) for e, n, t in ((1, 1, "quick"), (1, 2, "quick"), (2, 1, "quick"), (2, 2, "thorough"), (3, 1, "thorough"))],
    *[Ob(f"learning {''.join(map(str, c))} lengths {n}{' until it is finished' if f else ''}", learning, tier=t, chars=c, lengths=n, fixpoint=f, opts=OPTS) for c, n, f, t in (
        ((0, 1), (1,), False, "quick"), ((0, 1), (2,), False, "quick"), ((0, 1), (3,), False, "quick"), ((0, 3), (2,), False, "quick"), ((0, 1), (1, 2), False, "quick"), ((0, 1), (1, 2), True, "quick"), ((1, 2), (2, 1), True, "quick"),
        ((0, 1), (2, 2), True, "thorough"), ((0, 1), (4,), False, "thorough"), ((0, 1), (3, 2), False, "thorough"), ((0, 1, 2), (3,), False, "thorough"))],
]
