#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property on /repo.

Deductive leg  : vf/  (python3-vt)  contracts on the functions of /repo, every
                 obligation generated from the current source and discharged.
Concrete leg   : conc/ (PyPy, real library) bounded cases; replays failing
                 obligations on the real code and stands in, labelled bounded,
                 for functions out of the verifier's reach.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = "/opt/pypy-venv/bin/python"
sys.path.insert(0, HERE)


def known_ids(pid):
    out = {}
    for line in open(os.path.join(HERE, "known_findings.jsonl")):
        line = line.strip()
        if line:
            d = json.loads(line)
            if d["property"] == pid and d["status"] == "known":
                out[d["id"]] = d
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    env = dict(os.environ, PYTHONHASHSEED="0", VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2", MPLBACKEND="Agg")
    from vf.registry import REGISTRY, TRUSTED
    reg = REGISTRY[pid]
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    conc_out = os.path.join(tmp, "conc.json")
    ded_out = os.path.join(tmp, "ded.json")
    src = os.environ.get("VF_REPO", "/repo") + "/src"
    env["VF_REPO_SRC"] = src
    env["VF_SRC"] = src + "/pylogit"
    climit = 420 if tier == "quick" else 3000
    env.setdefault("VF_CONC_BUDGET", str(climit - 60))
    conc_err = open(os.path.join(tmp, "conc.err"), "w+")
    conc = subprocess.Popen([PYPY, os.path.join(HERE, "conc", "run.py"), pid, str(seed), tier, conc_out],
                            cwd=os.path.join(HERE, "conc"), env=env, stdout=subprocess.DEVNULL, stderr=conc_err)
    ded = None
    dlimit = 480 if tier == "quick" else 3000
    ded_err = open(os.path.join(tmp, "ded.err"), "w+")
    if reg.get("contracts"):
        ded = subprocess.Popen(["python3-vt", "-m", "vf.run", pid, ded_out, str(dlimit - 30)], cwd=HERE, env=env,
                               stdout=subprocess.DEVNULL, stderr=ded_err)

    def fin(p, limit):
        try:
            p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()

    dres = None
    if ded is not None:
        fin(ded, dlimit)
        if os.path.exists(ded_out):
            dres = json.load(open(ded_out))
        else:
            ded_err.seek(0)
            dres = {"obs": [], "error": "verifier process ended without a result: " + ded_err.read()[-2000:], "functions": [],
                    "wall_s": 0, "solver_s": 0, "digests": {}}
    fin(conc, climit)
    cres = None
    if os.path.exists(conc_out):
        cres = json.load(open(conc_out))
    else:
        conc_err.seek(0)
        cres = {"failures": [], "known": {}, "evaluations": 0, "cases": {}, "truncated": True,
                "error": "concrete leg ended without a result: " + conc_err.read()[-3000:], "wall_s": 0}

    obs = dres["obs"] if dres else []
    proved = [o for o in obs if o["status"] == "proved"]
    failed = [o for o in obs if o["status"] in ("failed", "vacuous")]
    unsup = [o for o in obs if o["status"] == "unsupported"]
    kn = known_ids(pid)
    failures = list(cres["failures"])
    for fid, k in list(cres["known"].items()):
        if fid in kn:
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, kn[fid]["what"], k["count"]))
        else:
            failures.append({"name": "known:" + fid, "seed": seed, "instance": -1, "detail": k["detail"]})
    # an import failure of the real library is a failing input in itself
    crashed = None
    if cres["error"]:
        crashed = cres["error"]

    # with a failed obligation and no failing input yet: search harder
    searched = 0
    if failed and not failures and not crashed:
        left = 800 - (time.time() - t0)
        procs = []
        for s in range(101, 107):
            o = os.path.join(tmp, "s%d.json" % s)
            e2 = dict(env, VF_CONC_BUDGET=str(min(120, max(5, left - 60))))
            procs.append((o, subprocess.Popen([PYPY, os.path.join(HERE, "conc", "run.py"), pid, str(s), tier, o],
                                              cwd=os.path.join(HERE, "conc"), env=e2, stdout=subprocess.DEVNULL,
                                              stderr=subprocess.DEVNULL)))
        for o, p in procs:
            try:
                p.wait(timeout=max(1, 840 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(o):
                r = json.load(open(o))
                searched += r["evaluations"]
                failures += r["failures"]

    rc = 0
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, "%s.json" % pid)
    if failures or failed:
        rc = 1
        rec = {"property": pid, "failed_obligations": [
            {"obligation": o["fn"] + " :: " + o["name"], "verifier_output": o["detail"]} for o in failed[:20]]}
        if failures:
            f = failures[0]
            rec["case"] = {"name": f["name"], "seed": f["seed"], "instance": f["instance"]}
            rec["detail"] = f["detail"]
            rec["all_failures"] = failures[:20]
            rec["replay_cmd"] = "cd %s/conc && %s run.py --replay %s" % (HERE, PYPY, replay)
        json.dump(rec, open(replay, "w"), indent=1)
        for o in failed[:5]:
            print("failed obligation: %s :: %s\n   %s" % (o["fn"], o["name"], o["detail"][:400]))
        for f in failures[:3]:
            print("failing input: case %s seed %s instance %s: %s" % (f["name"], f["seed"], f["instance"], f["detail"][:600]))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if failures else " no-failing-input-found"))
    elif crashed:
        rc = 2
        print("ERROR: concrete leg: %s" % crashed)
    elif reg.get("contracts") and not obs and not (dres and dres.get("error")):
        rc = 2
        print("ERROR: no obligations were generated")
    if dres and dres.get("error"):
        print("note: deductive leg incomplete: %s" % dres["error"][:300])

    full = bool(obs) and not unsup and not failed and not (dres and dres.get("error"))
    level = reg["level"] if (reg["level"] != "proof" or full) else "other"
    by_backend = {}
    for o in proved:
        by_backend[o["backend"]] = by_backend.get(o["backend"], 0) + 1
    cov = {
        "obligations": len(obs), "discharged": len(proved),
        "discharged_by_back_end": by_backend,
        "checker_cmd": "cd /verif && python3-vt -m vf.run %s out.json" % pid,
        "functions_under_contract": sorted(set(o["fn"] for o in obs)),
        "not_discharged": [{"fn": o["fn"], "name": o["name"], "status": o["status"], "why": o["detail"][:300]} for o in unsup + failed][:40],
        "solver_s": dres["solver_s"] if dres else 0.0,
        "source_sha256": dres.get("digests", {}) if dres else {},
        "trusted_base": TRUSTED + reg.get("assumed", []),
        "bounded_part": reg.get("bounded", ""),
        "evaluations": cres["evaluations"] + searched,
        "distinct_nontrivial": cres.get("distinct", 0),
        "rule": "pseudo-random instances (gapped obs ids, arbitrary alternative ids, availability patterns, weights, ridge, "
                "specifications); each instance has its own seed, compares the real code with an independent oracle, and "
                "distinct_nontrivial counts the distinct data sets (at least two observations and two alternatives) and distinct argument tuples (at least one array with two entries) given to the real code",
        "samples": [{"case": k, "instances": v["run"], "planned": v["planned"]} for k, v in cres["cases"].items()]
        + [{"data": x} for x in cres.get("data", [])],
        "concrete_truncated": cres["truncated"],
    }
    if level == "other":
        cov["explanation"] = reg.get("bounded") or "deductive obligations partly outside the verifier's reach; bounded concrete cases stand in"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": TRUSTED + reg.get("assumed", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(failures) + (len(failed) if not failures else 0)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d out of reach, %d concrete evaluations, %.1f s" % (
        pid, len(proved), len(obs), len(unsup), cres["evaluations"] + searched, time.time() - t0))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
