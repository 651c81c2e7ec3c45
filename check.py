#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--jobs N] [--no-replay] [-v]

Decides one property: generates the proof obligations from /repo's current source,
discharges them, replays the executable form of the same contracts on the real code and
writes evidence/<property>.json."""
import argparse
import concurrent.futures
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
REPO_PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"


if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") != "0":
    # the order of sets must not differ between runs
    os.execve(sys.executable, [sys.executable] + sys.argv,
              dict(os.environ, PYTHONHASHSEED="0"))


def run_job(job):
    from pyvc import registry
    return registry.run_job(*job)


def prove(pid, tier, jobs, verbose):
    from pyvc import registry
    todo, done, out = registry.first_jobs(pid), set(), []
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, maxtasksperchild=4) as pool:
        pend = []
        t_end = time.time() + (700 if tier == "quick" else 3000)

        def launch(js):
            for j in js:
                if j not in done:
                    done.add(j)
                    pend.append((j, pool.apply_async(run_job, ((pid, tier) + j,))))
        launch(todo)
        while pend:
            j, h = pend.pop(0)
            try:
                r = h.get(timeout=max(1, t_end - time.time()))
            except mp.TimeoutError:
                r = {"name": "%s[%s]" % (j[1], j[2]), "kind": j[0], "obls": [],
                     "error": "time budget of the check used up", "vacuous": None,
                     "seconds": 0, "used": [], "inlined": [], "paths": 0}
            out.append(r)
            if verbose:
                bad = [o for o in r["obls"] if o["status"] != "proved"]
                print("%-60s %4d obligations %3d failed %6.1fs %s" % (
                    r["name"], len(r["obls"]), len(bad), r["seconds"], r["error"] or ""))
                for o in bad[:6]:
                    print("      FAILED", o["label"], o["reason"])
                sys.stdout.flush()
            launch(registry.more_jobs(pid, r["used"]))
    return out


def replay(pid, tier, seed, budget):
    """bounded search for an input on which the real code breaks the contract"""
    cmd = [REPO_PY, os.path.join(HERE, "replay", "run.py"), pid, "--seed", str(seed),
           "--budget", str(budget), "--tier", tier]
    env = dict(os.environ, PYVC_REPO=REPO, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0")
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=env,
                           timeout=budget + 120)
    except subprocess.TimeoutExpired:
        return {"error": "replay search timed out", "evaluations": 0, "distinct": 0,
                "samples": [], "failures": [], "known": []}
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return {"error": "replay search crashed: " + (p.stdout + p.stderr)[-1500:],
                "evaluations": 0, "distinct": 0, "samples": [], "failures": [],
                "known": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--no-replay", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, t0 = a.property, time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from pyvc import registry
    P = registry.PROPS[pid]
    budget = 25 if a.tier == "quick" else 300
    none = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "known": [],
            "error": None, "rule": ""}
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        rp = none if a.no_replay else ex.submit(replay, pid, a.tier, seed, budget)
        res = [] if a.no_proof else prove(pid, a.tier, a.jobs, a.v)
        rp = rp if a.no_replay else rp.result()

    obls = [o for r in res for o in r["obls"]]
    good = [o for o in obls if o["status"] == "proved"]
    # functions the proof could not be run on (construct outside the verified subset,
    # or the function does not exist any more): the bounded search alone decides them
    skipped = [r for r in res if r["error"] or r["vacuous"]]
    failed = [(r, o) for r in res if not (r["error"] or r["vacuous"])
              for o in r["obls"] if o["status"] != "proved"]
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    viol = []
    for i, f in enumerate(rp["failures"][:3]):
        path = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (pid, i))
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1)
        viol.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("input found: %s" % f.get("what", "")[:600])
    if failed and not rp["failures"]:
        path = os.path.join(HERE, "evidence", "replay", "%s-obligation.txt" % pid)
        with open(path, "w") as fh:
            for r, o in failed:
                fh.write("%s\n  solver: %s (%.2fs)\n  goal: %s\n\n" % (
                    o["label"], o["reason"], o["time"], o["goal"]))
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    for r, o in failed[:12]:
        print("obligation not discharged: %s" % o["label"])
    for r in skipped:
        print("not decided by proof (bounded search only): %s: %s" % (
            r["name"], r["error"] or r["vacuous"]))
    for k in rp["known"]:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))

    if not a.no_proof and not obls and not skipped:
        print("no obligations were generated")
        return 3
    if rp["error"]:
        print(rp["error"])
        if not viol:
            return 4
    under = sorted({r["name"] for r in res if r["kind"] == "contract" and
                    not r["error"] and not r["vacuous"]})
    inl = sorted({q for r in res for q in r["inlined"]})
    cov = {
        "obligations": len(obls) + len(skipped),
        "discharged": len(good),
        "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (pid, a.tier),
        "trusted_base": P["trusted"] + registry.TRUSTED,
        "functions_under_contract": under,
        "functions_verified_by_inlining": inl,
        "lemmas": sorted(r["name"] for r in res if r["kind"] == "lemma"),
        "not_decided_by_proof": [{"function": r["name"],
                                  "reason": r["error"] or r["vacuous"]} for r in skipped],
        "undischarged": [o["label"] for _, o in failed],
        "paths": sum(r["paths"] for r in res),
        "by_backend": {b: sum(1 for o in good if o["backend"] == b)
                       for b in sorted({o["backend"] for o in good})},
        "solver_seconds": round(sum(o["time"] for o in obls), 2),
        "vc_generation_seconds": round(sum(r["seconds"] for r in res), 2),
        "slowest_obligation_seconds": round(max([o["time"] for o in obls] or [0]), 2),
        "bounded_replay": {"evaluations": rp["evaluations"], "distinct": rp["distinct"],
                           "rule": rp.get("rule", ""), "samples": rp["samples"][:3],
                           "note": "bounded search of the executable contract on the "
                                   "real code; never counted as proved"},
        "bounded_functions": P.get("bounded", []),
    }
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": P["level"],
          "coverage": cov, "assumptions": P["assumptions"] + registry.ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    print("%s: %d/%d obligations discharged, %d functions not decided by proof, "
          "%d replay evaluations, %.1fs" % (pid, len(good), len(obls), len(skipped),
                                            rp["evaluations"], time.time() - t0))
    for v in viol:
        print(v)
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
