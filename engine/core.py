"""Path engine: decisions, path condition, obligations, symbolic loops."""
from __future__ import annotations
import time, itertools
from . import terms as T
from . import solver as S
from .terms import (TRUE, FALSE, ZERO, ONE, atom, band, bnot, as_const, in_range, lt, le, eq, sub)


class Control(BaseException):
    pass


class PathEnd(Control):
    """This path is finished (loop iteration verified, infeasible, ...)."""


class ProbeEnd(Control):
    def __init__(self, key, data):
        self.key, self.data = key, data


class NeedProbe(Control):
    def __init__(self, key, trace, spec):
        self.key, self.trace, self.spec = key, trace, spec


class Unsupported(Control):
    """The code uses something the verifier does not model: obligation undischarged."""


class Obligation:
    __slots__ = ("name", "ok", "how", "info", "time")

    def __init__(self, name, ok, how="", info=None, t=0.0):
        self.name, self.ok, self.how, self.info, self.time = name, ok, how, info, t


class Engine:
    def __init__(self):
        self.reset()

    def reset(self):
        self.obligations = []
        self.assumptions = set()
        self.notes = []
        self.summaries = {}
        self.probing = {}
        self.loop_ids = []
        self.probe_depth = 0
        self.hints = []
        self.paths = 0
        self.probe_target = None
        self.recording = True
        self.max_paths = 4000
        self.deadline = None
        self.functions = set()
        self.loops_solved = []
        self.in_probe = 0
        self.completed = 0
        self.called = set()
        self.start_path([])

    # ---------------------------------------------------------------- paths
    def start_path(self, trace):
        self.trace = list(trace)
        self.taken = []
        self.pc = []
        self.uid = itertools.count(1)
        self.loopcount = 0
        self.heap = {}
        self.mutlog = set()
        self.context = []
        self.objs = {}
        self.foreign = set()
        self.objlist = []
        self.label_counter = {}

    def new_uid(self):
        return next(self.uid)

    def mutated(self, key):
        self.mutlog.add(key)

    def obj_uid(self, o):
        u = self.objs.get(id(o))
        if u is None:
            u = self.new_uid()
            self.objs[id(o)] = u
            self.objlist.append(o)          # keep alive
            self.heap[u] = o
        return u

    def setattr(self, o, name, val):
        """Instrumented attribute store (logged so that loops can treat it as a cell)."""
        d = getattr(o, "__dict__", None)
        if id(o) not in self.objs and d:
            # built by code that is not instrumented: it may be older than the current loop
            self.foreign.add(self.obj_uid(o))
        u = self.obj_uid(o)
        if type(d) is dict and name in d and d[name] is val:
            return              # the cell keeps its value
        setattr(o, name, val)
        self.mutlog.add(("attr", u, name))

    def notes_add(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def check_under(self, name, goal, hyps):
        saved = list(self.pc)
        self.pc = saved + [h for h in hyps if h is not TRUE]
        try:
            return self.check(name, goal)
        finally:
            self.pc = saved

    def simp(self, t):
        return S.simplify(t, self.pc)

    def simp_under(self, t, hyps):
        return S.simplify(t, self.pc + [h for h in hyps if h is not TRUE])

    def pc0(self):
        return self.pc

    def known(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return S.decide(c, self.pc)

    def prove_now(self, c):
        return S.prove(c, self.pc)

    def assume(self, c):
        c = self.simp(c)
        if c is TRUE:
            return
        if c is FALSE:
            raise PathEnd()
        if c.k == "and":
            for x in c.a:
                if x not in self.pc:
                    self.pc.append(x)
        elif c not in self.pc:
            self.pc.append(c)

    def choose(self, n, tag=""):
        """Nondeterministic choice explored exhaustively."""
        i = len(self.taken)
        if i < len(self.trace):
            d = self.trace[i]
        else:
            d = 0
            for alt in range(1, n):
                self.worklist.append(self.taken + [alt])
        self.taken.append(d)
        return d

    def branch(self, c):
        c = self.simp(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        k = self.known(c)
        if k is not None:
            return k
        i = len(self.taken)
        if i < len(self.trace):
            d = self.trace[i]
        else:
            ft = S.feasible(self.pc + [c])
            ff = S.feasible(self.pc + [bnot(c)])
            if ft and ff:
                d = True
                self.worklist.append(self.taken + [False])
            elif ft:
                d = True
            elif ff:
                d = False
            else:
                raise PathEnd()
        self.taken.append(d)
        self.assume(c if d else bnot(c))
        return d

    # ---------------------------------------------------------------- obligations
    def check(self, name, goal):
        if not self.recording or self.in_probe:
            return True
        if goal is True:
            goal = TRUE
        if goal is False:
            goal = FALSE
        t = time.time()
        q0 = S.STATS["z3_queries"]
        ok = S.prove(goal, self.pc)
        how = "z3+normaliser" if S.STATS["z3_queries"] > q0 else "normaliser"
        info = None
        if not ok:
            info = {"goal": T.show(S.simplify(goal, self.pc))[:4000],
                    "path_condition": [T.show(c)[:300] for c in self.pc][:40]}
            try:
                info["model"] = S.model(self.pc, goal)
            except Exception:      # noqa: BLE001
                info["model"] = None
        self.obligations.append(Obligation(name, bool(ok), how, info, time.time() - t))
        return ok

    def fail(self, name, why):
        if self.in_probe:
            return
        self.obligations.append(Obligation(name, False, "engine", {"reason": why}, 0.0))

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, worklist=None, probe=None):
        """Run fn on every path.  With probe=(key, cells) run in probe mode and collect."""
        outer = getattr(self, "worklist", None)
        self.worklist = worklist if worklist is not None else [[]]
        old_target = self.probe_target
        self.probe_target = probe
        results = []
        try:
            while self.worklist:
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget of the function exhausted")
                trace = self.worklist.pop()
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Unsupported("path budget exhausted")
                nob = len(self.obligations)
                self.start_path(trace)
                try:
                    fn()
                except PathEnd:
                    pass
                except ProbeEnd as e:
                    results.append(e.data)
                except NeedProbe as e:
                    del self.obligations[nob:]
                    wl = self.worklist
                    self.build_summary(fn, e)
                    self.worklist = wl
                    self.probe_target = probe
                    self.worklist.append(list(e.trace))
                except Control:
                    raise
                except Exception as e:      # noqa: BLE001
                    # the real code raised on this path and no contract allows it
                    if probe is None:
                        self.unexpected(e)
                else:
                    if probe is None:
                        self.completed_path()
        finally:
            self.probe_target = old_target
            if outer is not None:
                self.worklist = outer
        return results

    def unexpected(self, e):
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/engine/" not in f.filename]
        f = where[-1] if where else tb[-1]
        msg = "%s: %s (at %s:%s in %s)" % (type(e).__name__, str(e)[:600], f.filename, f.lineno, f.name)
        if S.feasible(self.pc):
            self.obligations.append(Obligation(
                "no exception on inputs satisfying the precondition", False, "engine",
                {"reason": msg, "path_condition": [T.show(c)[:300] for c in self.pc][:40]}))

    def completed_path(self):
        """A path ran to its end: record that its path condition is satisfiable (vacuity guard)."""
        self.completed += 1

    def build_summary(self, fn, need):
        from . import loops
        loops.build(self, fn, need)

    def run_function(self, fn, name):
        """Explore all paths; returns True if every obligation raised was discharged."""
        n0 = len(self.obligations)
        self.summaries = {}
        self.paths = 0
        try:
            self.explore(fn)
        except Unsupported as e:
            self.obligations.append(Obligation(name + " [verifier reach]", False, "engine",
                                               {"reason": "unsupported: %s" % e}))
        new = self.obligations[n0:]
        return new


def trace_join(trace, prefix):
    return list(trace) if len(trace) >= len(prefix) else list(prefix)


ENG = Engine()
