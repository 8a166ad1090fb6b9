"""
Runtime contracts on the real code: run.py <property> check|deep|replay <seconds>
<seed> <out>.  Cases come from concrete/<property>.py; the code under test is imported
from /repo in the project's own interpreter.
"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


class Skip(Exception):
    """the case does not meet the precondition"""


def main():
    pid, mode, sec, seed, out = sys.argv[1:6]
    sec = float(sec)
    seed = int(seed)
    res = dict(cases=0, distinct=0, failures=[], error=None, samples=[])
    import numpy as np
    np.seterr(all='ignore')
    t0 = time.time()
    try:
        from concrete import setup
        setup.install()
        mod = importlib.import_module('concrete.' + pid)
    except Exception:
        res['error'] = traceback.format_exc()
        res['import_error'] = True
        json.dump(res, open(out, 'w'))
        return
    if mode == 'replay':
        with open(out) as f:
            d = json.load(f)
        case = d['failure']['case']
        print('case: %s' % (json.dumps(case)[:2000],))
        print('outcome: %s' % (run_case(mod, case),))
        return
    seen = set()
    keys = set()
    deep = mode == 'deep'
    n = getattr(mod, 'N_DEEP' if deep else 'N_QUICK', None) or (5000 if deep else 300)
    rng = np.random.RandomState(seed + (7919 if deep else 0))
    try:
        for case in mod.cases(rng, deep):
            if time.time() - t0 > sec and res['cases'] >= getattr(mod, 'MIN', 5):
                break
            if res['cases'] >= n:
                break
            key = json.dumps(case, sort_keys=True, default=str)
            msg = run_case(mod, case)
            if msg is SKIPPED:
                continue
            res['cases'] += 1
            seen.add(key)
            if len(res['samples']) < 3:
                res['samples'].append(case)
            if msg is not None:
                k = None
                if isinstance(msg, tuple):
                    k, msg = msg
                res['failures'].append(dict(case=case, message=msg, key=k))
                if (k is None) or len(res['failures']) > 200:
                    break
    except Exception:
        res['error'] = traceback.format_exc()
    res['distinct'] = len(seen)
    if hasattr(mod, 'RULE'):
        res['rule'] = mod.RULE
    res['wall'] = time.time() - t0
    json.dump(res, open(out, 'w'), default=str)


SKIPPED = object()


def run_case(mod, case):
    try:
        return mod.check(case)
    except Skip:
        return SKIPPED
    except AssertionError as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'assertion %s at %s' % (e, ['%s:%s' % (os.path.basename(f.filename),
                                                   f.lineno) for f in tb[-3:]])
    except Exception as e:
        if type(e).__name__ == 'Skip':
            return SKIPPED
        tb = traceback.extract_tb(e.__traceback__)
        return 'unexpected %s: %s at %s' % (
            type(e).__name__, e, ['%s:%s' % (os.path.basename(f.filename), f.lineno)
                                  for f in tb[-4:]])


if __name__ == '__main__':
    main()
