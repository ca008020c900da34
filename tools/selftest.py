"""python3-vt tools/selftest.py [PID ...]: audit of the prover.

Every equality that the prover accepts is evaluated in random finite models of
its facts (vf/model.py), and every symbolic derivative is compared with a
difference quotient.  A disagreement would be a wrong rule in vf/norm.py."""
import collections
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(pid):
    os.environ["VF_AUDIT"] = "1"
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    import importlib
    from vf import norm
    from vf.vc import Session
    from vf.registry import REGISTRY
    S = Session(pid)
    for mod in REGISTRY[pid]["contracts"]:
        getattr(importlib.import_module("vf." + mod), pid)(S)
    bad = 0
    for what, log in (("equalities", norm.AUDIT_LOG), ("derivatives", [(e,) for e in norm.AUDIT_DIFF])):
        d = collections.Counter()
        for q in log:
            d[q[0][0]] += 1
            if q[0][0] == "refuted":
                bad += 1
                print("REFUTED %s: %s\n   %s" % (pid, q[0][1][:500], [norm.show(x)[:500] for x in q[1:]]))
        print("%s %s: %s" % (pid, what, dict(d)))
    return bad


if __name__ == "__main__":
    if sys.argv[1:2] == ["--one"]:
        sys.exit(1 if one(sys.argv[2]) else 0)
    from itertools import chain
    pids = sys.argv[1:] or ["P%02d" % k for k in chain(range(1, 28), [30])]
    with ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(lambda p: subprocess.run([sys.executable, os.path.abspath(__file__), "--one", p], capture_output=True, text=True), pids))
    for p, r in zip(pids, rs):
        sys.stdout.write(r.stdout if r.returncode in (0, 1) and not r.stderr else "%s\n%s" % (r.stdout, r.stderr[-1500:]))
    sys.exit(1 if any(r.returncode for r in rs) else 0)
