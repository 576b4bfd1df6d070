"""Path-exhaustive symbolic execution by re-execution.

A harness is run again and again; every time the code under test branches on a
symbolic condition, the engine asks z3 which outcomes are feasible, follows one
and remembers the other.  Exploration ends when no feasible alternative is left,
so a finished exploration together with `unsat` answers for every negated
assertion is a verdict for all values of the symbolic inputs within the bounds
the harness states.
"""

import os
import sys
import time

import z3


class EngineSignal(BaseException):
    """Steers the exploration; never caught by the code under test."""


class PathDead(EngineSignal):
    """The current path is infeasible or cut by an assumption."""


class OutOfBudget(EngineSignal):
    """The obligation's time budget ran out."""


class Cut(EngineSignal):
    """The path was cut at a stated bound (counted, reported)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class NonDet(EngineSignal):
    """Re-execution took a different course: the exploration is unsound, stop."""


class CheckFailed(EngineSignal):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Violation(Exception):
    """Raised by a concrete (replay) run when a check fails."""


class Stats:
    FIELDS = (
        "paths", "queries", "unsat", "sat", "unknown", "checks", "checks_discharged",
        "checks_inconclusive", "branches", "concretizations", "cuts", "unsupported",
        "dead", "trivially_true",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        return d


ENGINE = None  # the engine of the exploration under way in this process


def engine():
    return ENGINE


class Engine:
    def __init__(self, deadline=None, query_timeout_ms=20000, enum_cap=600, opts=None):
        self.opts = dict(opts or {})
        enum_cap = self.opts.get("enum_cap", enum_cap)
        query_timeout_ms = self.opts.get("query_timeout_ms", query_timeout_ms)
        logic = self.opts.get("logic")
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.solver.set("random_seed", 1)
        self.stats = Stats()
        self.deadline = deadline
        self.enum_cap = enum_cap
        self.pending = None
        self.trail = []  # [kind, expr-or-value, other_side_open]
        self.pos = 0
        self.model = None
        self.names = {}
        self.inputs = []  # (name, kind, proxy) in creation order, of this path
        self.reached = {}
        self.cut_reasons = {}
        self.simp = z3.simplify
        self.abstracted = False  # this path used an over-approximated result

    # -- low level --------------------------------------------------------
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise self._signal(OutOfBudget())
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
            self.model = self.solver.model()
        else:
            self.stats.unknown += 1
        return r

    def _push(self, entry, expr):
        self.solver.push()
        if expr is not None:
            self.solver.add(expr)
        self.trail.append(entry)
        self.pos += 1

    def _model_value(self, b):
        if self.model is None:
            return None
        v = self.model.eval(b, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _signal(self, sig):
        self.pending = sig
        return sig

    # -- steering ---------------------------------------------------------
    def assume(self, b):
        """Restrict the path to b (a z3 Bool)."""
        if self.pending is not None:
            raise self.pending
        if self.pos < len(self.trail):
            self.pos += 1
            return
        b = self.simp(b)
        if z3.is_true(b):
            self._push(["assume"], None)
            return
        if z3.is_false(b):
            self.stats.dead += 1
            raise self._signal(PathDead())
        mv = self._model_value(b)
        self._push(["assume"], b)
        if mv is not True:
            self.model = None
            if self._check() == z3.unsat:
                self.stats.dead += 1
                raise self._signal(PathDead())

    def branch(self, b):
        """Follow one feasible truth value of the z3 Bool b."""
        if self.pending is not None:
            raise self.pending
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[0] != "branch":
                raise self._signal(NonDet("branch vs " + e[0]))
            self.pos += 1
            return e[1]
        b = self.simp(b)
        if z3.is_true(b):
            return self._forced(True)
        if z3.is_false(b):
            return self._forced(False)
        mv = self._model_value(b)
        nb = z3.Not(b)
        unk = False
        if mv is None:
            self.model = None
            r = self._check(b)
            t_ok = r != z3.unsat
            m_t = self.model if r == z3.sat else None
            unk |= r == z3.unknown
            if not t_ok:
                self.model = None
                return self._forced(False)
            self.model = None
            r = self._check(nb)
            f_ok = r != z3.unsat
            self.model = m_t
            if not f_ok:
                return self._forced(True)
            self.stats.branches += 1
            self._push(["branch", True, b], b)
            return True
        keep = self.model
        r = self._check(nb if mv else b)
        self.model = keep
        if r == z3.unsat:
            return self._forced(mv)
        self.stats.branches += 1
        self._push(["branch", mv, b], b if mv else nb)
        return mv

    def _forced(self, v):
        self._push(["branch", v, None], None)
        return v

    def pick(self, term):
        """A feasible concrete value of term (recorded, so re-execution agrees)."""
        if self.pending is not None:
            raise self.pending
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[0] != "pick":
                raise self._signal(NonDet("pick vs " + e[0]))
            self.pos += 1
            return e[1]
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise self._signal(PathDead())
            if r != z3.sat:
                raise self._signal(Cut("solver unknown while picking a value"))
        v = self.model.eval(term, model_completion=True)
        self._push(["pick", v], None)
        return v

    def concretize(self, term):
        """Enumerate every feasible value of term, one per path."""
        term = self.simp(term)
        if z3.is_int_value(term) or z3.is_bv_value(term):
            return term
        n = 0
        while True:
            v = self.pick(term)
            self.stats.concretizations += 1
            if self.branch(term == v):
                return v
            n += 1
            if n > self.enum_cap:
                raise self._signal(Cut("value enumeration cap"))

    def choose(self, n):
        """A fresh, unconstrained variable over range(n), one value per path."""
        if self.pending is not None:
            raise self.pending
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[0] != "choose":
                raise self._signal(NonDet("choose vs " + e[0]))
            self.pos += 1
            return e[1]
        if n <= 0:
            self.stats.dead += 1
            raise self._signal(PathDead())
        self._push(["choose", 0, n], None)
        return 0

    def cut(self, why):
        raise self._signal(Cut(why))

    def must(self, b):
        """Is b implied by the path condition?  (no fork; unknown -> False)"""
        if self.pending is not None:
            raise self.pending
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[0] != "memo":
                raise self._signal(NonDet("memo vs " + e[0]))
            self.pos += 1
            return e[1]
        b = self.simp(b)
        if z3.is_true(b):
            res = True
        elif z3.is_false(b) or self._model_value(b) is False:
            res = False
        else:
            keep = self.model
            r = self._check(z3.Not(b))
            self.model = keep
            res = r == z3.unsat
        self._push(["memo", res], None)
        return res

    def check(self, b, msg):
        """Assert b for every value on this path."""
        if self.pending is not None:
            raise self.pending
        if self.pos < len(self.trail):
            self.pos += 1
            return
        self.stats.checks += 1
        b = self.simp(b)
        if z3.is_true(b):
            self.stats.checks_discharged += 1
            self.stats.trivially_true += 1
            self._push(["check"], None)
            return
        mv = self._model_value(b)
        keep = self.model
        if mv is False:
            raise self._signal(CheckFailed(msg))
        self.model = None
        r = self._check(z3.Not(b))
        if r == z3.unsat:
            self.stats.checks_discharged += 1
            self.model = keep
            # implied by the path: nothing to add
            self._push(["check"], None)
            return
        if r == z3.unknown:
            self.stats.checks_inconclusive += 1
            self.model = keep
            self._push(["check"], None)
            return
        # self.model now refutes b
        raise self._signal(CheckFailed(msg))

    def reach(self, label):
        """Vacuity witness: this point was reached on a feasible path."""
        self.reached[label] = self.reached.get(label, 0) + 1

    # -- exploration ------------------------------------------------------
    def _backtrack(self):
        while self.trail:
            e = self.trail.pop()
            if e[0] == "choose" and e[1] + 1 < e[2]:
                self.stats.branches += 1
                self.trail.append(["choose", e[1] + 1, e[2]])
                return True
            self.solver.pop()
            if e[0] == "branch" and e[2] is not None:
                v = not e[1]
                self.model = None
                self.solver.push()
                self.solver.add(e[2] if v else z3.Not(e[2]))
                self.trail.append(["branch", v, None])
                return True
        return False

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else f"{base}.{n}"

    def start_path(self):
        self.pos = 0
        self.names = {}
        self.inputs = []
        self.pending = None
        self.abstracted = False
        # strategies cached by a previous path may hold its symbolic values
        m = sys.modules.get("hypothesis.strategies._internal.utils")
        clear = getattr(m, "clear_cache", None)
        if clear is not None:
            clear()

    def fresh_int(self, base):
        from .values import SymInt

        self.abstracted = True
        return SymInt.int_(z3.Int("aux!" + self.fresh_name(base)))
