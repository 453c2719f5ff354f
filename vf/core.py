"""Path explorer, obligation store and solver front end.

The verifier executes the *real* (mechanically instrumented) source under CPython with
z3-backed proxy values (``vf.sym``).  Every truth test of a symbolic condition calls
``Ctx.branch``; the explorer re-executes the harness once per feasible decision prefix, so when
it terminates every feasible path of the harness has been covered, for all values of the
symbolic inputs.  Each ``prove`` on each path is one proof obligation discharged by z3
(cvc5 as second back end when z3 answers unknown).
"""

from __future__ import annotations

import time

import z3

z3.set_param("model.completion", True)


class Control(BaseException):
    """Engine control flow; never derives from Exception so library code cannot swallow it."""


class PathEnd(Control):
    """The current path stops here (loop back edge proved, infeasible assumption...)."""


class Unsupported(Control):
    """The construct is outside the verifier's reach; the unit becomes undecided."""


class Budget(Control):
    """Time / path budget exhausted; the unit becomes undecided."""


class MergeFail(Control):
    """A nested (merging) exploration could not merge its outcomes; caller forks instead."""


class NestedFork(Control):
    pass


CTX = None  # current context (symbolic mode) or None


def ctx():
    return CTX


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.solver_calls = 0
        self.cvc5_calls = 0
        self.backend = {"z3": 0, "cvc5": 0, "syntactic": 0}


STATS = Stats()


def _check(solver, *assumptions):
    t = time.monotonic()
    r = solver.check(*assumptions)
    STATS.solver_s += time.monotonic() - t
    STATS.solver_calls += 1
    return r


class Obligation:
    __slots__ = ("name", "instances", "discharged", "failed", "unknown", "backends")

    def __init__(self, name):
        self.name = name
        self.instances = 0
        self.discharged = 0
        self.failed = []
        self.unknown = 0
        self.backends = {}


class Unit:
    """Result of exploring one harness unit."""

    def __init__(self):
        self.obligations = {}
        self.paths = 0
        self.complete_paths = 0
        self.covers = {}
        self.required_covers = set()
        self.undecided = []  # reasons
        self.functions = set()
        self.assumptions = set()
        self.failures = []  # dicts {name, model, path}
        self.abstract = False  # a loop contract or call contract was used (over-approximation)
        self.inputs_seen = 0

    def ob(self, name):
        o = self.obligations.get(name)
        if o is None:
            o = self.obligations[name] = Obligation(name)
        return o


class Ctx:
    """One path of one exploration."""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.query_timeout_ms)
        self.fresh = {}
        self.byte_seen = {}
        self.soft = []
        self.len_lb = {}
        self.inputs = []  # (name, proxy) in creation order
        self.nest = 0
        self.ghost = {}
        self.steps = 0

    # -- naming -----------------------------------------------------------------------
    def fresh_name(self, base):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        return base if n == 0 else f"{base}!{n}"

    # -- path condition ---------------------------------------------------------------
    def add(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)

    def feasible(self, cond):
        r = _check(self.solver, cond)
        return r != z3.unsat

    def assume(self, cond):
        from vf.sym import zbool

        c = zbool(cond)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd("assumption false")
        self.add(c)
        if not self.ex.lazy_assume and _check(self.solver) == z3.unsat:
            raise PathEnd("assumption infeasible")

    def branch(self, cond):
        """Decide a symbolic truth value, forking when both outcomes are feasible."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.steps += 1
        self.ex.tick()
        d = len(self.decisions)
        if d < len(self.prefix):
            take = self.prefix[d]
            self.decisions.append(take)
            self.add(c if take else z3.Not(c))
            return take
        can_t = self.feasible(c)
        can_f = self.feasible(z3.Not(c))
        if can_t and can_f:
            self.ex.push(self.decisions + [False])
            self.decisions.append(True)
            self.add(c)
            return True
        if not can_t and not can_f:
            raise PathEnd("infeasible")
        # forced: still recorded, so re-execution stays in lock-step
        self.decisions.append(can_t)
        self.add(c if can_t else z3.Not(c))
        return can_t

    def choose(self, n, name="choice"):
        """Nondeterministic choice in range(n), every alternative explored."""
        if n <= 1:
            return 0
        for i in range(n - 1):
            b = z3.Bool(self.fresh_name(f"{name}.{i}"))
            if self.branch(b):
                return i
        return n - 1

    # -- obligations ------------------------------------------------------------------
    def valid(self, cond):
        """True iff pc => cond is proved (used internally, not an obligation)."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return _check(self.solver) == z3.unsat
        return _check(self.solver, z3.Not(c)) == z3.unsat

    def prove(self, name, cond):
        from vf.sym import zbool

        self.ex.tick()
        o = self.ex.unit.ob(name)
        o.instances += 1
        c = z3.simplify(zbool(cond))
        if z3.is_true(c):
            o.discharged += 1
            o.backends["syntactic"] = o.backends.get("syntactic", 0) + 1
            return True
        neg = z3.Not(c)
        self.solver.push()
        self.solver.set("timeout", self.ex.prove_timeout_ms)
        self.solver.add(neg)
        r = _check(self.solver)
        model = self.solver.model() if r == z3.sat else None
        for soft in self.soft if r == z3.sat else ():  # prefer a short counterexample
            self.solver.push()
            self.solver.add(soft)
            if _check(self.solver) == z3.sat:
                model = self.solver.model()
            self.solver.pop()
        smt = self.solver.to_smt2() if r == z3.unknown else None
        self.solver.pop()
        self.solver.set("timeout", self.ex.query_timeout_ms)
        if r == z3.unsat:
            o.discharged += 1
            o.backends["z3"] = o.backends.get("z3", 0) + 1
            return True
        if r == z3.unknown:
            r2 = cvc5_check(smt, self.ex.prove_timeout_ms)
            if r2 == "unsat":
                o.discharged += 1
                o.backends["cvc5"] = o.backends.get("cvc5", 0) + 1
                return True
            o.unknown += 1
            self.ex.unit.undecided.append(f"obligation {name}: solver unknown")
            self.add(c)
            return False
        vals = self.concretise(model)
        o.failed.append(vals)
        self.ex.unit.failures.append({"obligation": name, "inputs": vals, "decisions": list(self.decisions)})
        # continue with the condition assumed, so later obligations stay meaningful
        if self.feasible(c):
            self.add(c)
            return False
        raise PathEnd("obligation fails on every input of this path")

    def cover(self, name):
        """Reachability: this point is reachable with a satisfiable path condition."""
        if name in self.ex.unit.covers:
            return
        if _check(self.solver) == z3.sat:
            self.ex.unit.covers[name] = True

    def concretise(self, model):
        out = {}
        for name, conc in self.inputs:
            try:
                out[name] = conc(model)
            except Exception as e:  # pragma: no cover
                out[name] = {"error": repr(e)}
        return out


def cvc5_check(smt2, timeout_ms):
    """Second back end: hand the obligation to cvc5 as SMT-LIB."""
    STATS.cvc5_calls += 1
    try:
        import subprocess

        p = subprocess.run(
            ["cvc5", "--lang=smt2", f"--tlimit={int(timeout_ms)}", "-"],
            input="(set-logic ALL)\n" + smt2,
            capture_output=True,
            text=True,
            timeout=timeout_ms / 1000 + 5,
        )
        return p.stdout.strip().splitlines()[0] if p.stdout.strip() else "unknown"
    except Exception:
        return "unknown"


class Explorer:
    def __init__(self, harness, unit=None, *, query_timeout_ms=5000, prove_timeout_ms=20000,
                 max_paths=20000, deadline=None, lazy_assume=False):
        self.harness = harness
        self.unit = unit or Unit()
        self.stack = []
        self.query_timeout_ms = query_timeout_ms
        self.prove_timeout_ms = prove_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.lazy_assume = lazy_assume

    def push(self, prefix):
        self.stack.append(prefix)

    def tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Budget("time budget exhausted")

    def run(self):
        global CTX
        self.stack = [[]]
        first_error = None
        while self.stack:
            if self.unit.paths >= self.max_paths:
                self.unit.undecided.append("path budget exhausted")
                break
            if len(self.unit.failures) >= 8:
                break  # decided: the remaining paths cannot make this unit hold
            prefix = self.stack.pop()
            c = Ctx(self, prefix)
            saved = CTX
            CTX = c
            self.unit.paths += 1
            try:
                self.harness(c)
                self.unit.complete_paths += 1
            except PathEnd:
                pass
            except Unsupported as e:
                self.unit.undecided.append(f"unsupported: {e}")
                if len(self.unit.undecided) >= 3:
                    break
            except Budget as e:
                self.unit.undecided.append(str(e))
                break
            except (MergeFail, NestedFork) as e:
                self.unit.undecided.append(f"engine: {type(e).__name__} {e}")
                break
            except z3.Z3Exception as e:
                self.unit.undecided.append(f"z3: {e}")
                break
            except Exception as e:
                import traceback

                self.unit.undecided.append("harness error: " + "".join(traceback.format_exception(e))[-1500:])
                break
            finally:
                CTX = saved
        return self.unit


# -- nested exploration with merging --------------------------------------------------

def nested_paths(thunk, snapshot=None, restore=None, max_paths=64):
    """Explore all paths of ``thunk`` from the current path condition, in place.

    Returns a list of (condition, kind, value, effects).  Runs under the current Ctx's solver
    (push/pop), without touching the outer decision list.  ``snapshot``/``restore`` undo local
    mutations between runs; ``snapshot()`` after a run captures its effects.
    """
    c = CTX
    results = []
    work = [[]]
    outer = (c.prefix, c.decisions, list(c.pc), dict(c.fresh))
    saved_push = c.ex.stack
    base_state = snapshot() if snapshot else None
    facts = (dict(c.byte_seen), dict(c.len_lb))
    try:
        while work:
            if len(results) >= max_paths:
                raise MergeFail("too many nested paths")
            pref = work.pop()
            c.ex.stack = []
            c.prefix, c.decisions = pref, []
            c.fresh = dict(outer[3])
            n0 = len(c.pc)
            c.solver.push()
            c.nest += 1
            try:
                kind, value = "ok", None
                try:
                    value = thunk()
                except PathEnd as e:
                    if "infeasible" not in str(e):
                        raise MergeFail("path ended inside merge") from None
                    kind = "end"
                except Exception as e:
                    kind, value = "exc", e
                cond = z3.And(*c.pc[n0:]) if len(c.pc) > n0 + 1 else (c.pc[n0] if len(c.pc) > n0 else z3.BoolVal(True))
                if c.fresh != outer[3]:
                    raise MergeFail("fresh symbols created inside merge")
                eff = snapshot() if snapshot else None
                if kind != "end":
                    results.append((cond, kind, value, eff))
                work.extend(c.ex.stack)
            finally:
                c.nest -= 1
                c.solver.pop()
                c.byte_seen, c.len_lb = dict(facts[0]), dict(facts[1])
                del c.pc[n0:]
                if restore:
                    restore(base_state)
    finally:
        c.ex.stack = saved_push
        c.prefix, c.decisions = outer[0], outer[1]
        c.fresh = outer[3]
    return results
