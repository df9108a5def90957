#!/opt/venv/bin/python
"""Decide one property: symbolically execute the real code of /repo for every harness of the property.

    run.py <PID> [--tier quick|thorough] [--only NAME] [--verbose]
    run.py --replay FILE          re-run a recorded counterexample on the real code

exit 0: the solver discharged every obligation (or only listed known findings fail)
exit 1: VIOLATION (a counterexample that reproduces on the real code)
exit 2: no answer (inconclusive query, unsupported construct, budget exhausted)
"""

import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)

import argparse
import glob
import importlib
import json
import math
import pickle
import shutil
import signal
import tempfile
import time
import traceback


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, float):
        return x if math.isfinite(x) else str(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return str(x)


def load(pid):
    fs = glob.glob(os.path.join(ROOT, "checks", pid.lower() + "_*.py"))
    if len(fs) != 1:
        raise SystemExit(f"no check module for {pid}")
    return importlib.import_module("checks." + os.path.basename(fs[0])[:-3])


def known_ids(pid):
    """Findings listed in known_findings.txt for this property."""
    out = {}
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding:"):
                rest = line[len("finding:") :].strip().split(None, 2)
                if rest[0] == "property=" + pid:
                    out[rest[1].split("=", 1)[1]] = rest[2]
    except FileNotFoundError:
        pass
    return out


def child(mod, hd, tier, seed, path):
    import torch

    torch.set_num_threads(1)
    from symex import harness

    out = open(path + ".log", "w")
    os.dup2(out.fileno(), 1)
    os.dup2(out.fileno(), 2)
    opts = dict(hd["opts"])
    cfg = harness.Cfg(seed=seed, **opts)
    known = known_ids(mod.PROPERTY)
    cfg.known_ids = known
    try:
        res = harness.explore(hd["name"], hd["fn"], cfg)
        d = {
            "name": res.name,
            "status": res.status,
            "messages": res.messages,
            "paths": res.paths,
            "explored": getattr(res, "explored", res.paths),
            "labels": res.labels,
            "stats": vars(res.stats),
            "validated": res.validated,
            "samples": res.samples,
            "notes": res.notes,
            "functions": res.functions,
            "fallbacks": res.fallbacks,
            "wall": res.wall,
        }
    except BaseException:
        d = {"name": hd["name"], "status": "error", "messages": [("error", "crash", traceback.format_exc()[-3000:], {})]}
    with open(path + ".tmp", "wb") as f:
        pickle.dump(jsonable(d), f)
    os.rename(path + ".tmp", path)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        rp = json.load(open(a.replay))
        a.pid = rp["property"]
        if os.path.abspath(a.replay).startswith(ROOT) is False:
            a.replay = os.path.abspath(a.replay)
        a.replay = os.path.abspath(a.replay)
    pid = a.pid.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_" + pid + "_")
    os.chdir(scratch)  # the code under test writes a log file into the working directory
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        return run(a, pid, seed, t0, scratch)
    finally:
        os.chdir(ROOT)
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, pid, seed, t0, scratch):
    import torch

    torch.set_num_threads(1)
    torch.set_num_interop_threads(1)
    from symex import harness

    harness.quiet_logs()
    try:
        mod = load(pid)
    except SystemExit:
        raise
    except Exception:
        print(f"ERROR property={pid} the check could not load the code under test\n{traceback.format_exc()}")
        return 2
    tier = a.tier
    todo = [h for h in mod.HARNESSES if tier == "thorough" or h["tier"] == "quick"]
    if tier == "thorough":
        # a thorough harness may supersede the quick one of the same name
        names = {h["name"] for h in todo if h["tier"] == "thorough"}
        todo = [h for h in todo if h["tier"] == "thorough" or h["name"] not in names]
    if a.only:
        todo = [h for h in todo if h["name"] == a.only]
    if a.replay:
        rp = json.load(open(a.replay))
        h = [h for h in mod.HARNESSES if h["name"] == rp["harness"] and h["tier"] == rp.get("harness_tier", h["tier"])][0]
        cfg = harness.Cfg(seed=seed, **h["opts"])
        cfg.known_ids = known_ids(pid)
        fails, hh, exc = harness.replay(h["fn"], rp["inputs"], cfg)
        print("inputs:", json.dumps(jsonable(hh.inputs)))
        print("failures:", fails)
        return 1 if fails else 0
    cap = 840.0 if tier == "quick" else 6 * 3600.0
    pending = sorted(todo, key=lambda h: -h["opts"].get("budget_s", 300))
    running = {}
    results = {}
    n = 0
    while pending or running:
        while pending and len(running) < a.jobs:
            hd = pending.pop(0)
            n += 1
            path = os.path.join(scratch, f"r{n}.pkl")
            sys.stdout.flush()
            wd = os.path.join(scratch, f"w{n}")
            os.mkdir(wd)
            p = os.fork()
            if p == 0:
                try:
                    os.setpgid(0, 0)
                    os.chdir(wd)
                    child(mod, hd, tier, seed, path)
                except BaseException:
                    traceback.print_exc()
                os._exit(3)
            lim = min(hd["opts"].get("budget_s", 300) * 1.3 + 90, cap - (time.time() - t0))
            running[p] = (hd, path, time.time() + lim)
        time.sleep(0.05)
        for p in list(running):
            hd, path, dl = running[p]
            done, st = os.waitpid(p, os.WNOHANG)
            if done:
                del running[p]
                try:
                    results[hd["name"]] = pickle.load(open(path, "rb"))
                except Exception:
                    tail = ""
                    try:
                        tail = open(path + ".log").read()[-1500:]
                    except Exception:
                        pass
                    results[hd["name"]] = {"name": hd["name"], "status": "error", "messages": [["error", "process", f"the harness process ended with {st}: {tail}", {}]]}
            elif time.time() > dl:
                try:
                    os.killpg(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.kill(p, signal.SIGKILL) if os.path.exists(f"/proc/{p}") else None
                os.waitpid(p, 0)
                del running[p]
                results[hd["name"]] = {"name": hd["name"], "status": "error", "messages": [["error", "timeout", "hard time limit", {}]]}
            else:
                continue
            r = results[hd["name"]]
            if a.verbose or r["status"] != "ok":
                print(f"  [{pid}] {r['name']}: {r['status']} paths={r.get('paths')} validated={r.get('validated')} wall={r.get('wall', 0):.1f}s {r.get('labels') if a.verbose else ''}")
                if a.verbose:
                    print("     notes:", r.get("notes"), "fallbacks:", r.get("fallbacks"), "stats:", r.get("stats"))
                for m in r["messages"]:
                    print("     ", str(m)[:3000])
            sys.stdout.flush()
    # ---- verdict
    code = 0
    violations = []
    known = {}
    for hd in todo:
        r = results[hd["name"]]
        for m in r["messages"]:
            if m[0] == "known":
                known.setdefault(m[1], (hd["name"], m))
            if m[0] == "violation":
                violations.append((hd, m))
    listed = known_ids(pid)
    for kid, (hn, m) in sorted(known.items()):
        print(f"KNOWN-FINDING: property={pid} id={kid} {listed.get(kid, '')}")
    rdir = os.path.join(ROOT, "evidence", "replays")
    vio_out = []
    for hd, m in violations:
        os.makedirs(rdir, exist_ok=True)
        f = os.path.join(rdir, f"{pid}_{hd['name']}.json")
        with open(f, "w") as o:
            json.dump({"property": pid, "harness": hd["name"], "harness_tier": hd["tier"], "obligation": m[1], "failure": m[2], "inputs": m[3], "how": f"/opt/venv/bin/python {ROOT}/run.py --replay {f}"}, o, indent=1)
        print(f"  {hd['name']}: {m[1]} -> {m[2]}")
        print(f"VIOLATION property={pid} replay={f}")
        vio_out.append({"harness": hd["name"], "obligation": m[1], "failure": m[2], "inputs": m[3], "replay": f})
        code = 1
    errors = [hd["name"] for hd in todo if results[hd["name"]]["status"] == "error"]
    if errors and code == 0:
        code = 2
        print(f"INCONCLUSIVE property={pid} harnesses: {errors}")
    wall = time.time() - t0
    if not a.only:
        evidence(mod, pid, tier, seed, todo, results, vio_out, sorted(known), wall, errors)
    rs = results.values()
    print(f"{pid} {tier}: {len(todo)} harnesses, {sum(r.get('paths', 0) for r in rs)} paths, {sum(sum(v.values()) for r in rs for v in r.get('labels', {}).values())} obligations, {wall:.1f}s, exit {code}")
    return code


def evidence(mod, pid, tier, seed, todo, results, vio, known, wall, errors):
    rs = [results[h["name"]] for h in todo]
    tot = lambda k: sum(r.get("stats", {}).get(k, 0) for r in rs)
    how = {}
    for r in rs:
        for v in r.get("labels", {}).values():
            for k, c in v.items():
                how[k] = how.get(k, 0) + c
    queries = tot("queries")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(r.get("paths", 0) for r in rs),
            "transitions": queries,
            "traces_validated_against_impl": sum(r.get("validated", 0) for r in rs),
            "samples": [s for r in rs for s in r.get("samples", [])][:6],
            "meaning": "states = symbolic execution paths of the real code followed to their end; transitions = solver queries answered; traces validated = solver witnesses of a path replayed on the real code with plain tensors, all obligations holding",
            "harnesses": len(todo),
            "paths_started": sum(r.get("explored", 0) for r in rs),
            "obligations": sum(how.values()),
            "obligations_by_deciding_step": how,
            "obligations_per_harness": {r["name"]: {k: sum(v.values()) for k, v in r.get("labels", {}).items()} for r in rs},
            "solver": {k: tot(k) for k in ("queries", "unsat", "sat", "unknown", "branch_queries", "rewritten", "confirmed")},
            "solver_seconds": round(tot("solver_s"), 3),
            "functions_encoded": sorted({f for r in rs for f in r.get("functions", [])}),
            "concretely_executed_operators": sorted({f for r in rs for f in r.get("fallbacks", [])}),
            "bounds": {h["name"]: h["bounds"] for h in todo},
            "inconclusive": errors,
            "known_findings": known,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + sorted({n for r in rs for n in r.get("notes", [])})[:40],
        "violations": len(vio),
        "violation_details": jsonable(vio),
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    f = os.path.join(ROOT, "evidence", pid + ".json")
    with open(f + ".tmp", "w") as o:
        json.dump(jsonable(ev), o, indent=1)
    os.rename(f + ".tmp", f)


if __name__ == "__main__":
    sys.exit(main())
