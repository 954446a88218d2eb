"""Path exploration: run, record branches, flip them with the solver, discharge checks."""
from __future__ import annotations

import random
import signal
import threading
import time
import traceback

from . import expr as X
from .expr import E, And, Or, Not, In, ev

CUR = None          # the current Run


class Stop(BaseException):
    """Ends the current path (never caught by the code under test)."""


class AssumeFailed(Stop):
    pass


class Truncated(Stop):
    pass


class PathViolation(Stop):
    pass


class SymxError(BaseException):
    """The executor itself cannot continue; never a verdict about the code."""


class Stats:
    FIELDS = ("paths", "infeasible", "branches", "z3_queries", "z3_sat", "z3_unsat",
              "z3_unknown", "domain_queries", "cache_hits", "checks", "check_queries",
              "assume_dead", "diverged", "truncated", "pins", "enumerated")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.z3_time = 0.0
        self.concretised = {}
        self.labels = {}

    def dump(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["z3_time"] = round(self.z3_time, 3)
        d["concretised"] = dict(self.concretised)
        d["labels"] = dict(self.labels)
        return d


class Solver:
    def __init__(self, stats, timeout_ms=10000):
        self.stats = stats
        self.cache = {}
        self.timeout = timeout_ms

    def solve(self, lits, goal):
        """Model (dict over the vars of the relevant slice) of lits & goal, None if
        unsat, 'unknown' if the solver gave up."""
        st = self.stats
        if goal is False:
            return None
        if goal is True:
            goal_atoms = []
        else:
            goal_atoms = list(goal.args) if goal.op == "and" else [goal]
        vs = set()
        for g in goal_atoms:
            vs |= g.vars
        sl = []
        rest = [l for l in lits if isinstance(l, E)]
        changed = True
        while changed and rest:
            changed = False
            keep = []
            for l in rest:
                if l.vars & vs:
                    sl.append(l)
                    if not l.vars <= vs:
                        vs |= l.vars
                    changed = True
                else:
                    keep.append(l)
            rest = keep
        cons = sl + goal_atoms
        key = frozenset(c.id for c in cons)
        hit = self.cache.get(key)
        if hit is not None:
            st.cache_hits += 1
            return None if hit == "unsat" else hit
        r = self._solve(cons, vs)
        self.cache[key] = "unsat" if r is None else r
        return r

    def _solve(self, cons, vs):
        st = self.stats
        # pure per-variable membership: interval arithmetic decides
        dom = {}
        for c in cons:
            if c.op == "in" and c.args[0].op == "var":
                n = c.args[0].args[0]
                d = dom.get(n)
                if d is None:
                    d = c.args[0].dom
                dom[n] = X.cs_and(d, c.args[1])
            else:
                dom = None
                break
        if dom is not None:
            st.domain_queries += 1
            m = {}
            for n, d in dom.items():
                if not d:
                    return None
                m[n] = X.cs_pick(d)
            return m
        z3 = X.z3mod()
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for n in vs:
            s.add(X.dom_z3(X.VARDOM[n]))
        for c in cons:
            s.add(X.to_z3(c))
        t = time.perf_counter()
        r = s.check()
        st.z3_time += time.perf_counter() - t
        st.z3_queries += 1
        if r == z3.unsat:
            st.z3_unsat += 1
            return None
        if r != z3.sat:
            st.z3_unknown += 1
            return "unknown"
        st.z3_sat += 1
        mod = s.model()
        m = {}
        for n in vs:
            v = mod.eval(X.to_z3(X.VARDOM[n]), model_completion=True)
            m[n] = v.as_long()
        memo = {}
        for c in cons:
            if not ev(c, m, memo):
                # expression evaluator and z3 disagree: never trust either
                raise SymxError("model mismatch on %s" % X.pp(c))
        return m


class Run:
    def __init__(self, env, bound, max_branches, stats, solver):
        self.env = env
        self.bound = bound
        self.lits = []          # literals that hold on this path
        self.kinds = []         # br | pin | fact
        self.known = set()      # ids of literals that hold
        self.dom = {}
        self.max_branches = max_branches
        self.stats = stats
        self.solver = solver
        self.checks = []
        self.observed = []
        self.vars = {}
        self.memo = {}
        self.incomplete = []
        self.reached = set()
        self.avoid = {}
        self.pinned = {}
        self.enum_pins = 130
        self.dmemo = {}
        self.smemo = {}

    # -- variables --
    def var(self, name, dom, default=None):
        v = X.var(name, dom)
        self.vars[name] = v
        if name not in self.env:
            self.env[name] = X.cs_pick(dom) if default is None else default
        return v

    def ev(self, e):
        if not isinstance(e, E):
            return e
        return X._ev(e, self.env, self.memo)

    # -- branching --
    def decide(self, c):
        """True / False if the path condition (unary facts) already decides c."""
        if c is True or c is False:
            return c
        if c.op in ("and", "or"):
            # expressions are shared: decide each node once per state of the path
            m = self.dmemo
            if c.id in m:
                v, n = m[c.id]
                if v is not None or n == len(self.lits):
                    return v
            v = self._decide(c)
            m[c.id] = (v, len(self.lits))
            return v
        return self._decide(c)

    def _decide(self, c):
        if c.op == "in":
            d = self.dom.get(c.args[0])
            if d is not None:
                x = X.cs_and(d, c.args[1])
                if not x:
                    return False
                if x == d:
                    return True
            return None
        if c.id in self.known:
            return True
        n = c._neg
        if n is not None and isinstance(n, E) and n.id in self.known:
            return False
        if c.op == "and":
            r = True
            for a in c.args:
                x = self.decide(a)
                if x is False:
                    return False
                if x is None:
                    r = None
            return r
        if c.op == "or":
            r = False
            for a in c.args:
                x = self.decide(a)
                if x is True:
                    return True
                if x is None:
                    r = None
            return r
        return None

    def simp(self, c):
        """Simplify c under the unary facts of the path."""
        d = self.decide(c)
        if d is not None:
            return d
        if c.op in ("and", "or"):
            m = self.smemo
            if c.id in m and m[c.id][1] == len(self.lits):
                return m[c.id][0]
            xs = [self.simp(a) for a in c.args]
            r = And(*xs) if c.op == "and" else Or(*xs)
            m[c.id] = (r, len(self.lits))
            return r
        return c

    def add_fact(self, lit, kind):
        if lit is True:
            return
        if isinstance(lit, E) and lit.op == "and":
            # split conjunctions: better slicing and pruning (same flip behaviour is
            # kept because the conjunction is recorded as one literal too)
            pass
        self.lits.append(lit)
        self.kinds.append(kind)
        self._learn(lit)

    def _learn(self, lit):
        self.known.add(lit.id)
        if lit.op == "in":
            e, cs = lit.args
            d = self.dom.get(e)
            self.dom[e] = cs if d is None else X.cs_and(d, cs)
        elif lit.op == "and":
            for a in lit.args:
                self._learn(a)

    def branch(self, c, kind="br"):
        if c is True or c is False:
            return c
        d = self.decide(c)
        if d is not None:
            return d
        val = self.ev(c)
        lit = c if val else Not(c)
        if len(self.lits) >= self.max_branches:
            self.stats.truncated += 1
            raise Truncated()
        self.stats.branches += 1
        self.add_fact(lit, kind)
        return val

    def assume(self, c):
        if c is True:
            return
        if c is False or not self.branch(c):
            raise AssumeFailed()

    def pin(self, e, why):
        """Fix an int expression to its current value (a bounded, recorded loss)."""
        if not isinstance(e, E):
            return e
        v = self.ev(e)
        if self.decide(X.Eq(e, v)) is True:
            return v
        d = X.dom_of(e)
        k = self.dom.get(e)
        if k is not None:
            d = X.cs_and(d, k)
        if d:
            lo, hi = d[0][0], d[-1][1]
            if hi - lo < self.enum_pins:
                # small: enumerate every value by binary search
                while lo < hi:
                    mid = (lo + hi) // 2
                    if self.branch(X.Le(e, mid)):
                        hi = mid
                    else:
                        lo = mid + 1
                self.stats.enumerated += 1
                return v
        for old in self.avoid.get(e.id, ()):
            self.branch(X.Eq(e, old), "avoid")
        c = X.Eq(e, v)
        if self.decide(c) is None:
            self.stats.pins += 1
            self.stats.concretised[why] = self.stats.concretised.get(why, 0) + 1
            self.branch(c, "pin")
            self.pinned[len(self.lits) - 1] = (e.id, v)
        return v


class PathTime(SymxError):
    """One path took too long."""


class _Watch:
    """Ends a path that runs for longer than `limit` seconds (the timer repeats, in case the
    code under test swallows the exception)."""

    def __init__(self, limit):
        self.limit = limit if limit and threading.current_thread() is threading.main_thread() \
            else None

    def __enter__(self):
        if self.limit:
            self.old = signal.signal(signal.SIGALRM, self.fire)
            signal.setitimer(signal.ITIMER_REAL, self.limit, 1.0)

    def fire(self, *a):
        raise PathTime("a path ran for more than %g s" % self.limit)

    def __exit__(self, *a):
        if self.limit:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
        return False


class Explorer:
    """Explores one harness shape."""

    def __init__(self, fn, stats=None, seed=1, max_paths=100000, max_branches=4000,
                 deadline=None, pin_flips=40, max_candidates=3, on_path=None, path_time=None, on_candidate=None,
                 on_limit=None):
        self.fn = fn
        self.path_time = path_time
        self.on_candidate = on_candidate
        self.on_limit = on_limit
        self.stats = stats or Stats()
        self.solver = Solver(self.stats)
        self.rng = random.Random(seed)
        self.max_paths = max_paths
        self.max_branches = max_branches
        self.deadline = deadline
        self.pin_flips = pin_flips
        self.max_candidates = max_candidates
        self.on_path = on_path
        self.candidates = []
        self.errors = []
        self.complete = True
        self.why_incomplete = {}
        self.witnesses = []

    def incompl(self, why):
        self.complete = False
        self.why_incomplete[why] = self.why_incomplete.get(why, 0) + 1

    def explore(self):
        global CUR
        st = self.stats
        work = [({}, 0, None, {})]
        seen = set()
        n = 0
        while work:
            if self.deadline is not None and time.time() > self.deadline:
                self.incompl("time budget")
                break
            if n >= self.max_paths:
                self.incompl("path budget")
                break
            if len(self.candidates) >= self.max_candidates:
                self.incompl("stopped after candidates")
                break
            env, bound, expect, avoid = work.pop(self.rng.randrange(len(work)))
            n += 1
            run = Run(dict(env), bound, self.max_branches, st, self.solver)
            run.avoid = avoid
            CUR = run
            status = "ok"
            exc = None
            nc = len(self.candidates)
            try:
                with _Watch(self.path_time):
                    self.fn(run)
            except AssumeFailed:
                status = "assume"
                st.assume_dead += 1
            except Truncated:
                status = "truncated"
                self.incompl("branch budget")
            except PathViolation:
                status = "violation"
            except SymxError as e:
                status = "error"
                self.errors.append("%s: %s" % (type(e).__name__, e))
                self.incompl("executor limit: %s" % e)
            except RecursionError as e:
                status = "error"
                self.errors.append("RecursionError")
                self.incompl("recursion limit")
            except Stop:
                status = "stop"
            except Exception as e:       # the harness saw an unexpected exception
                status = "exception"
                exc = "".join(traceback.format_exception_only(type(e), e)).strip()
                tb = traceback.format_exc(limit=-6)
                self.candidates.append(dict(
                    label="exception", detail=exc, tb=tb, env=dict(run.env)))
            finally:
                CUR = None
            sig = tuple(l.id for l in run.lits)
            if sig in seen:
                st.diverged += 1
                self.incompl("divergence")
                continue
            seen.add(sig)
            st.paths += 1
            if expect is not None:
                if len(run.lits) < bound or any(
                        run.lits[i].id != expect[i] for i in range(bound)):
                    st.diverged += 1
                    self.incompl("divergence")
                    bound = 0
            if run.incomplete:
                for w in run.incomplete:
                    self.incompl(w)
            # discharge the checks of this path
            if run.checks and status != "error":
                self._discharge(run)
            if status == "ok" and self.on_path is not None:
                self.on_path(run)
            if status in ("error", "truncated") and self.on_limit is not None:
                self.on_limit(run)
            if self.on_candidate is not None:
                for c in self.candidates[nc:]:
                    self.on_candidate(c)
            # flip
            for i in range(len(run.lits) - 1, bound - 1, -1):
                k = run.kinds[i]
                if k == "fact" or k == "avoid":
                    continue
                av = run.avoid
                if k == "pin":
                    if self.pin_flips <= 0:
                        self.incompl("concretised value not enumerated")
                        continue
                    self.pin_flips -= 1
                    if i not in run.pinned:
                        # a pinned condition: its negation is the ordinary flip
                        pe = None
                    else:
                        pe, pv = run.pinned[i]
                    av = dict(av)
                    if pe is not None:
                        av[pe] = av.get(pe, ()) + (pv,)
                m = self.solver.solve(run.lits[:i], Not(run.lits[i]))
                if m is None:
                    st.infeasible += 1
                    continue
                if m == "unknown":
                    self.incompl("solver unknown")
                    continue
                e2 = dict(run.env)
                e2.update(m)
                work.append((e2, i + 1, [l.id for l in run.lits[:i]]
                             + [Not(run.lits[i]).id], av))
        return self

    def _discharge(self, run):
        st = self.stats
        pend = []
        for cond, label in run.checks:
            st.checks += 1
            st.labels[label] = st.labels.get(label, 0) + 1
            if cond is True:
                continue
            if cond is False or not run.ev(cond):
                self.candidates.append(dict(label=label, detail="fails on this path",
                                            env=dict(run.env)))
                continue
            cond = run.simp(cond)
            if cond is True:
                continue
            pend.append((cond, label))
        if not pend:
            return
        for group in (pend,):
            goal = Or(*[Not(c) for c, _ in group])
            st.check_queries += 1
            m = self.solver.solve(run.lits, goal)
            if m is None:
                continue
            if m == "unknown":
                self.incompl("solver unknown on a check")
                continue
            env = dict(run.env)
            env.update(m)
            bad = [l for c, l in group if not ev(c, env)]
            self.candidates.append(dict(label=bad[0] if bad else "?", detail="solver model",
                                        env=env))
