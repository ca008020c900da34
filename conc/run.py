"""Concrete leg driver (PyPy): run.py PID seed tier out.json | run.py --replay file"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src = os.environ.get('VF_REPO_SRC')
if src:
    sys.path.insert(0, src)

import numpy as np
import lib

MODULES = {'c_calc': ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P28', 'P29'],
           'c_tools': ['P13', 'P14', 'P15', 'P16', 'P27'],
           'c_model': ['P17', 'P18', 'P19', 'P20', 'P21', 'P22', 'P30', 'P31', 'P28', 'P05', 'P02'],
           'c_boot': ['P23', 'P24', 'P25', 'P26', 'P17', 'P27', 'P28', 'P30']}


def load(pid):
    for m, ps in MODULES.items():
        if pid in ps and os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + '.py')):
            __import__(m)


def gone(e):
    """A helper function that this file names is not in the package any more:
    the case cannot be posed (nothing was observed about the code)."""
    if not isinstance(e, (AttributeError, ImportError)):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    here = os.path.dirname(os.path.abspath(__file__))
    return (os.path.dirname(os.path.abspath(tb.tb_frame.f_code.co_filename)) == here
            and (isinstance(e, ImportError) or "module 'pylogit" in str(e)))


def run_one(fn, name, seed, i):
    """-> None | ('fail', detail) | ('known', fid, detail)"""
    rng = np.random.RandomState(lib.inst_seed(name, seed, i))
    np.random.seed(lib.inst_seed(name, seed, i) % (2 ** 31))
    try:
        fn(rng)
    except lib.Known as k:
        return ('known', k.fid, k.detail)
    except lib.Fail as f:
        return ('fail', str(f))
    except Exception as e:
        if gone(e):
            return None
        return ('fail', 'the real code raised on a valid input:\n' + traceback.format_exc()[-3000:])
    return None


def main():
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        c = r['case']
        load(r['property'])
        for name, fn, q, t in lib.CASES[r['property']]:
            if name == c['name']:
                res = run_one(fn, name, c['seed'], c['instance'])
                print(res if res else 'case passes')
                sys.exit(1 if res and res[0] == 'fail' else 0)
        sys.exit('no such case')
    pid, seed, tier, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    budget = float(os.environ.get('VF_CONC_BUDGET', '240' if tier == 'quick' else '2400'))
    t0 = time.time()
    devnull = open(os.devnull, 'w')
    real = sys.stdout
    sys.stdout = devnull
    res = {'property': pid, 'cases': {}, 'failures': [], 'known': {}, 'evaluations': 0, 'truncated': False,
           'error': None, 'samples': []}
    try:
        load(pid)
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    cases = lib.CASES.get(pid, [])
    for name, fn, q, t in cases:
        n = q if tier == 'quick' else t
        done = 0
        s0 = time.time()
        for i in range(n):
            if time.time() - t0 > budget:
                res['truncated'] = True
                break
            r = run_one(fn, name, seed, i)
            done += 1
            if r and r[0] == 'known':
                k = res['known'].setdefault(r[1], {'count': 0, 'detail': r[2]})
                k['count'] += 1
            elif r:
                res['failures'].append({'name': name, 'seed': seed, 'instance': i, 'detail': r[1]})
                if len([f for f in res['failures'] if f['name'] == name]) >= int(os.environ.get("VF_MAXFAIL", "3")):
                    break
        res['cases'][name] = {'run': done, 'planned': n, 'seconds': round(time.time() - s0, 2)}
        res['evaluations'] += done
    res['distinct'] = len(lib.SEEN)
    res['data'] = lib.SAMPLES
    res['wall_s'] = round(time.time() - t0, 2)
    sys.stdout = real
    json.dump(res, open(out, 'w'), indent=1)


if __name__ == '__main__':
    main()
