"""python3-vt -m vf.run PID out.json [time_limit]: discharge the contracts of one property.

The contracts are spread over worker processes.  A contract with a failed
obligation is tried again under other term orders (VF_SALT): canonical forms
depend on the order, a proof found under any order is a proof.
"""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VF_WORKERS", "6"))


def worker(pid, out, limit, shard, only):
    from .registry import REGISTRY
    from .vc import Session
    from . import loader
    S = Session(pid)
    S.shard = shard
    S.only = only
    res = {"error": None}

    class Late(BaseException):
        pass

    def late(*a):
        raise Late()

    t0 = time.time()
    try:
        signal.signal(signal.SIGALRM, late)
        if limit:
            signal.alarm(max(1, int(limit)))
        for mod in REGISTRY[pid]["contracts"]:
            m = importlib.import_module("vf." + mod)
            getattr(m, pid)(S)
    except Late:
        res["error"] = "time limit of %s s" % limit
    except Exception:
        res["error"] = traceback.format_exc()[-3000:]
    signal.alarm(0)
    res.update({"obs": S.obs, "solver_s": round(S.solver_s, 2), "wall_s": round(time.time() - t0, 2),
                "ncall": S.ncall, "digests": dict(loader.DIGESTS)})
    dump(res, out)


def dump(res, out):
    tmp = out + ".tmp"
    json.dump(res, open(tmp, "w"), indent=1)
    os.replace(tmp, out)


def launch(jobs, limit):
    """jobs: [(args dict, env dict)] -> results (None where a worker died)"""
    ps = []
    for a, env in jobs:
        if os.path.exists(a["out"]):
            os.remove(a["out"])
        p = subprocess.Popen([sys.executable, "-m", "vf.run", "--worker", json.dumps(a)], cwd=HERE,
                             env=dict(os.environ, **env), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        ps.append((a, p))
    rs = []
    end = time.time() + limit + 20
    for a, p in ps:
        err = b""
        try:
            _, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        if os.path.exists(a["out"]):
            rs.append(json.load(open(a["out"])))
            os.remove(a["out"])
        else:
            rs.append({"error": "worker ended without a result: " + err.decode(errors="replace")[-1500:], "obs": [],
                       "solver_s": 0, "wall_s": 0, "ncall": 0, "digests": {}})
    return rs


def main():
    if sys.argv[1] == "--worker":
        a = json.loads(sys.argv[2])
        return worker(a["pid"], a["out"], a["limit"], a["shard"], a["only"])
    pid, out = sys.argv[1], sys.argv[2]
    limit = float(sys.argv[3]) if len(sys.argv) > 3 else 3000
    t0 = time.time()
    rs = launch([({"pid": pid, "out": "%s.w%d" % (out, k), "limit": limit * 0.7, "shard": [k, WORKERS], "only": None}, {})
                 for k in range(WORKERS)], limit * 0.7)
    obs = [o for k, r in enumerate(rs) for o in r["obs"] if k == 0 or o.get("g")]
    errs = [r["error"] for r in rs if r["error"]]
    digests = {}
    for r in rs:
        digests.update(r["digests"])
    solver = sum(r["solver_s"] for r in rs)
    retried = []
    bad = []
    for o in obs:
        if o["status"] in ("failed", "unsupported") and o.get("g") and o["g"] not in bad:
            bad.append(o["g"])
    # another term order gets a few times what the first attempt took, no more
    first = time.time() - t0
    left = min(limit - first - 10, max(60, 4 * first))
    if bad and left > 20:
        salts = ["a", "b", "c", "d", "e", "f"]
        r2 = launch([({"pid": pid, "out": "%s.s%s" % (out, s), "limit": left, "shard": None, "only": bad[:8]}, {"VF_SALT": s})
                     for s in salts], left)
        for g in bad[:8]:
            for s, r in zip(salts, r2):
                alt = [o for o in r["obs"] if o.get("g") == g]
                if alt and all(o["status"] == "proved" for o in alt) and not r["error"]:
                    i = [k for k, o in enumerate(obs) if o.get("g") == g][0]
                    rest = [o for o in obs if o.get("g") != g]
                    obs = rest[:i] + alt + rest[i:]
                    retried.append({"contract": g, "order": s})
                    break
        solver += sum(r["solver_s"] for r in r2)
    for o in obs:
        o.pop("g", None)
    dump({"error": "; ".join(sorted(set(errs)))[:3000] or None, "obs": obs, "solver_s": round(solver, 2),
          "wall_s": round(time.time() - t0, 2), "functions": sorted(set(o["fn"] for o in obs)), "digests": digests,
          "retried": retried}, out)


if __name__ == "__main__":
    main()
