#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property on /repo's current tree.

1. every contract of the property is verified: the real source is loaded from the working tree,
   executed symbolically and every obligation is sent to the provers (see DESIGN.md);
2. the same contracts are evaluated at run time on the real, uninstrumented code (bounded
   stand-in / replay of failed obligations).
"""
import sys, os, json, time, subprocess, argparse, importlib, glob, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def run_rt(prop, tier, seed, deep=False, timeout=300):
    f = os.path.join(HERE, "rt", prop.lower() + ".py")
    if not os.path.exists(f):
        return None
    env = dict(os.environ)
    env["PYTHONPATH"] = REPO + os.pathsep + HERE
    env["VERIF_REPO"] = REPO
    env["OMP_NUM_THREADS"] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    cmd = [VENV_PY, "-W", "ignore", f, "--seed", str(seed), "--tier", "deep" if deep else tier]
    return subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                            cwd=HERE), cmd


def finish_rt(h, timeout):
    if h is None:
        return None
    p, cmd = h
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        err += "\n[timeout]"
    res = {"violations": [], "cases": 0, "checks": {}, "cmd": cmd, "crashed": None, "skipped": []}
    done = False
    for line in out.splitlines():
        if line.startswith("RTV "):
            res["violations"].append(json.loads(line[4:]))
        elif line.startswith("RTS "):
            d = json.loads(line[4:])
            res["cases"] = d["cases"]
            res["checks"] = d["checks"]
            done = True
    if not done:
        res["crashed"] = (err or out)[-1500:]
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-rt", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = a.prop
    from engine import contract as C
    rt = None if a.no_rt else run_rt(prop, tier, a.seed)
    modname = "contracts.%s" % prop.lower()
    cs = []
    load_error = None
    if os.path.exists(os.path.join(HERE, "contracts", prop.lower() + ".py")):
        try:
            importlib.import_module(modname)
            cs = [c for c in C.REG if c.prop == prop and (not a.only or a.only in c.name)]
        except BaseException as e:      # noqa: BLE001
            load_error = "%s: %s" % (type(e).__name__, e)
    results = C.run_all(cs, tier, jobs=int(os.environ.get("VERIF_JOBS", "7")),
                        wall=500 if tier == "quick" else 780)
    results.sort(key=lambda r: r["contract"])
    rtres = finish_rt(rt, 420 if tier == "quick" else 800)
    nob = sum(len(r["obligations"]) for r in results)
    bad = [(r, o) for r in results for o in r["obligations"] if not o["ok"]]
    if a.v:
        for r in results:
            print("  %-60s obl %3d/%3d paths %3d loops %2d %.1fs" % (
                r["contract"], sum(o["ok"] for o in r["obligations"]), len(r["obligations"]),
                r["paths"], r["loops"], r["wall"]))
        for r, o in bad[:int(os.environ.get("VERIF_SHOW", "3"))]:
            print("  FAILED", r["contract"], "::", o["name"], json.dumps(o["info"])[:int(os.environ.get("VERIF_WIDTH","500"))])
        if rtres:
            print("  rt cases", rtres["cases"], rtres["checks"], "violations",
                  len(rtres["violations"]), "crash:", rtres["crashed"])
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    unl_v, unl_o, seen_known = [], [], {}
    for v in (rtres or {}).get("violations", []):
        k = next((k for k in known if v["key"] in k.get("rt_keys", [])), None)
        if k:
            seen_known[k["id"]] = k
        else:
            unl_v.append(v)
    for r, o in bad:
        k = next((k for k in known if [r["contract"], o["name"]] in k.get("obligations", [])), None)
        if k:
            seen_known[k["id"]] = k
        else:
            unl_o.append((r, o))
    rt_broken = rtres is not None and rtres["crashed"]
    nothing = nob == 0 and not (rtres and rtres["cases"])
    # failed obligation without a concrete input: search deeper on the real code
    deep = None
    if unl_o and not unl_v and not a.no_rt and rt is not None:
        left = max(60, min(300, 800 - (time.time() - t0)))
        deep = finish_rt(run_rt(prop, tier, a.seed + 1000, deep=True), left)
        if deep:
            for v in deep["violations"]:
                if not any(v["key"] in k.get("rt_keys", []) for k in known):
                    unl_v.append(v)
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    viol = []
    rc = 0
    if unl_v or unl_o or load_error or nothing or rt_broken:
        rc = 1
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.json" % prop)
        rep = {"property": prop, "repo": REPO, "seed": a.seed,
               "failed_obligations": [{"contract": r["contract"], "targets": r["targets"],
                                       "obligation": o["name"], "verifier_output": o["info"]}
                                      for r, o in unl_o][:60],
               "concrete": unl_v[:20],
               "how_to_replay": "PYTHONPATH=%s:%s %s %s" % (
                   REPO, HERE, VENV_PY, os.path.join(HERE, "rt", prop.lower() + ".py")
                   + " --seed <seed of the entry> --only <key>"),
               "load_error": load_error, "rt_crash": rtres["crashed"] if rtres else None}
        json.dump(rep, open(rp, "w"), indent=1, default=str)
        if load_error:
            print("contract module failed to load:", load_error)
        for r, o in unl_o[:12]:
            print("undischarged: %s :: %s" % (r["contract"], o["name"]))
        for v in unl_v[:8]:
            print("concrete: %s %s" % (v["key"], str(v["detail"])[:300]))
        if rt_broken:
            print("runtime contract evaluation crashed: %s" % rtres["crashed"][-600:])
        line = "VIOLATION property=%s replay=%s" % (prop, rp)
        if not unl_v:
            line += " no-failing-input-found"
        print(line)
        viol = [line]
    # evidence
    man = json.load(open(os.path.join(HERE, "MANIFEST.json"))) if os.path.exists(
        os.path.join(HERE, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "bounded")
    hows, stats = {}, {}
    for r in results:
        for o in r["obligations"]:
            if o["ok"]:
                hows[o["how"]] = hows.get(o["how"], 0) + 1
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                stats[k] = round(stats.get(k, 0) + v, 3)
    assum = sorted({x for r in results for x in r["assumptions"]})
    from engine import trusted
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": level,
        "coverage": {
            "obligations": nob, "discharged": nob - len(bad),
            "checker_cmd": "python3-vt check.py %s" % prop,
            "trusted_base": trusted.BASE,
            "contracts": [{"contract": r["contract"], "functions": r["targets"],
                           "obligations": len(r["obligations"]),
                           "discharged": sum(o["ok"] for o in r["obligations"]),
                           "paths": r["paths"], "inductive_loop_invariants": r["loops"],
                           "functions_executed": r["calls"],
                           "seconds": r["wall"], "bound": r["note"] or "none"} for r in results],
            "functions_under_contract": sorted({t for r in results for t in r["targets"]}),
            "discharged_by_backend": hows, "solver_stats": stats,
            "runtime_contract_evaluation_bounded": None if rtres is None else {
                "cases": rtres["cases"], "checks": rtres["checks"], "deep_search": deep is not None},
            "undischarged": [{"contract": r["contract"], "obligation": o["name"]} for r, o in bad][:40],
        },
        "assumptions": trusted.GENERAL + assum + sorted(
            {"bound: %s — %s" % (r["contract"], r["note"]) for r in results if r["note"]}),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(unl_v) + (1 if rc and not unl_v else 0),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", "%s.json" % prop), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged, %d runtime cases, %.1fs -> %s" % (
        prop, nob - len(bad), nob, (rtres or {}).get("cases", 0), time.time() - t0,
        "ok" if rc == 0 else "VIOLATION"))
    sys.exit(rc)


main()
