"""Contract registry and the forked, time-limited runner."""
from __future__ import annotations
import os, sys, time, json, signal, traceback, multiprocessing as mp

REG: list = []


class Contract:
    def __init__(self, prop, name, targets, fn, budget, note):
        self.prop, self.name, self.targets, self.fn = prop, name, targets, fn
        self.budget, self.note = budget, note


def contract(prop, name, targets, budget=240, note=""):
    """fn(w): builds universally quantified inputs, runs the real function, states the post."""
    def deco(fn):
        REG.append(Contract(prop, name, [targets] if isinstance(targets, str) else list(targets),
                            fn, budget, note))
        return fn
    return deco


def run_one(c, tier="quick"):
    """Runs in a forked child."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    from . import runtime, core, solver
    t0 = time.time()
    eng = core.ENG
    eng.deadline = t0 + c.budget * (3 if tier == "thorough" else 1)
    try:
        w = runtime.make_world()
        obs = eng.run_function(lambda: c.fn(w), c.name)
        calls = sorted(eng.called)
    except BaseException as e:      # noqa: BLE001
        calls = []
        obs = eng.obligations + [core.Obligation(
            c.name + " [engine]", False, "engine",
            {"reason": "%s: %s" % (type(e).__name__, str(e)[:500]),
             "trace": traceback.format_exc()[-1500:]})]
    posts = [o for o in obs if o.name.startswith("post:")]
    if not posts or eng.completed == 0:
        obs.append(core.Obligation("vacuity guard: a path satisfying the precondition reaches the "
                                   "postcondition", False, "engine",
                                   {"reason": "posts=%d completed paths=%d" % (len(posts), eng.completed)}))
    else:
        obs.append(core.Obligation("vacuity guard: a path satisfying the precondition reaches the "
                                   "postcondition", True, "engine"))
    return {
        "contract": c.name, "prop": c.prop, "targets": c.targets, "note": c.note,
        "paths": eng.paths, "completed": eng.completed, "wall": round(time.time() - t0, 2),
        "loops": len(eng.loops_solved),
        "calls": calls,
        "assumptions": sorted(eng.assumptions), "stats": dict(solver.STATS),
        "obligations": [{"name": o.name, "ok": o.ok, "how": o.how, "t": round(o.time, 3),
                         "info": o.info} for o in obs],
    }


def _child(c, tier, conn):
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 << 20)
    box = {}

    def go():
        box["r"] = run_one(c, tier)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    r = box.get("r") or {"contract": c.name, "prop": c.prop, "targets": c.targets, "note": c.note,
                         "paths": 0, "completed": 0, "wall": 0, "loops": 0, "calls": [],
                         "assumptions": [], "stats": {},
                         "obligations": [{"name": c.name + " [engine]", "ok": False, "how": "engine",
                                          "t": 0, "info": {"reason": "verifier thread died"}}]}
    conn.send_bytes(json.dumps(r, default=str).encode())
    conn.close()


def run_all(cs, tier="quick", jobs=6, wall=600):
    """Run contracts in forked children, at most `jobs` at once."""
    ctx = mp.get_context("fork")
    out = []
    todo = list(cs)
    live = []
    tend = time.time() + wall

    def dead(c, why):
        return {"contract": c.name, "prop": c.prop, "targets": c.targets, "note": c.note, "paths": 0,
                "completed": 0, "wall": 0, "loops": 0, "calls": [], "assumptions": [], "stats": {},
                "obligations": [{"name": c.name + " [verifier reach]", "ok": False, "how": "engine",
                                 "t": 0, "info": {"reason": why}}]}
    while todo or live:
        while todo and len(live) < jobs:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(c, tier, b))
            p.start()
            b.close()
            live.append((c, p, a, time.time()))
        time.sleep(0.02)
        nxt = []
        for c, p, a, t in live:
            lim = c.budget * (3 if tier == "thorough" else 1) + 30
            if a.poll():
                try:
                    out.append(json.loads(a.recv_bytes().decode()))
                except EOFError:
                    out.append(dead(c, "verifier process died"))
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                out.append(dead(c, "verifier process died"))
            elif time.time() - t > lim or time.time() > tend:
                p.kill()
                out.append(dead(c, "time limit"))
            else:
                nxt.append((c, p, a, t))
        live = nxt
    return out
