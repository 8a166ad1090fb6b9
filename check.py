#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: prove, cross-check, report"""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if sys.executable != VT and os.path.exists(VT) and not os.environ.get('VERIF_IN_VT'):
    os.environ['VERIF_IN_VT'] = '1'
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def concrete(pid, mode, seconds, seed, out):
    env = dict(os.environ)
    env['PYTHONPATH'] = HERE + ':/opt/vp/support'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['VERIF_REPO'] = REPO
    env.setdefault('OMP_NUM_THREADS', '1')
    return subprocess.Popen(
        [PY, os.path.join(HERE, 'concrete', 'run.py'), pid, mode, str(seconds),
         str(seed), out], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        text=True)


def finish(p, out, limit):
    try:
        so, se = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        so, se = p.communicate()
        se = (se or '') + '\ntime limit of the concrete run'
    try:
        with open(out) as f:
            r = json.load(f)
    except (OSError, ValueError):
        r = dict(cases=0, distinct=0, failures=[], error=(se or '')[-3000:],
                 samples=[])
    return r


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    cfile = os.path.join(ev, '%s.concrete.json' % pid)
    for f in (cfile,):
        if os.path.exists(f):
            os.unlink(f)
    quick = tier != 'thorough'
    csec = 10 if quick else 120
    cp = concrete(pid, 'check', csec, seed, cfile)

    results = []
    perr = None
    try:
        from engine import contract
        mod = importlib.import_module('props.' + pid)
        items = mod.sessions()
        if not quick and hasattr(mod, 'thorough_sessions'):
            items = items + mod.thorough_sessions()
        results = contract.run_sessions(items, 240 if quick else 600)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        perr = '%s: %s' % (type(e).__name__, e)
        mod = None
    conc = finish(cp, cfile, csec * 4 + 150)

    # what is not discharged is tried again with more solver time and other seeds
    # (unless the real code is known to fail by now)
    tries = 0
    while mod is not None and tries < 2 and not split_known(
            conc.get('failures', []), known_findings(pid))[1]:
        left = (430 if quick else 1500) - (time.time() - t0)
        redo = set(r['session'] for r in results if r['error'] or any(
            o['status'] != 'discharged' for o in r['obligations']))
        if not redo or left < 30:
            break
        tries += 1
        new = contract.run_sessions([x for x in items if x[0] in redo], left,
                                    again=tries)
        new = {r['session']: r for r in new}
        results = [new.get(r['session'], r) for r in results]

    obls = [(r['session'], o) for r in results for o in r['obligations']]
    bad = [(s, o) for s, o in obls if o['status'] != 'discharged']
    errs = [(r['session'], r['error']) for r in results if r['error']]
    nd = sum(1 for _, o in obls if o['status'] == 'discharged')
    if perr:
        errs.append(('loading', perr))
    if not obls and not errs:
        errs.append(('all', 'no obligation was generated'))

    known = known_findings(pid)
    kf, fails = split_known(conc.get('failures', []), known)
    for k in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))

    def is_known_obl(s, o):
        return any(k.get('obligation') and k['obligation'] == '%s/%s' % (s, o['name'])
                   for k in known)
    bad = [(s, o) for s, o in bad if not is_known_obl(s, o)]

    deep = None
    if not fails and (bad or errs):
        dfile = os.path.join(ev, '%s.deep.json' % pid)
        if os.path.exists(dfile):
            os.unlink(dfile)
        dsec = 60 if quick else 300
        deep = finish(concrete(pid, 'deep', dsec, seed, dfile), dfile, dsec * 4 + 100)
        _, fails = split_known(deep.get('failures', []), known)

    viol = 0
    lines = []
    rp = os.path.join('evidence', 'replay', '%s.json' % pid)
    if conc.get('error') and not fails:
        # the real code could not even be exercised
        fails = [dict(case=None, message='concrete run failed: ' +
                      str(conc['error'])[-1500:])] if conc.get('import_error') or \
            not conc.get('cases') else []
    if fails:
        viol = len(fails)
        write(rp, dict(property=pid, kind='failing input', failure=fails[0],
                       other=fails[1:5], failed_obligations=[
                           '%s/%s' % (s, o['name']) for s, o in bad][:20],
                       engine_errors=errs,
                       rerun='%s /verif/concrete/run.py %s replay 0 0 %s' % (
                           PY, pid, rp)))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
    elif bad or errs:
        viol = 1
        s, o = bad[0] if bad else (errs[0][0], dict(name='proof attempt',
                                                     detail=errs[0][1]))
        write(rp, dict(property=pid, kind='undischarged obligation',
                       obligation='%s/%s' % (s, o['name']),
                       obligations=[dict(session=s, **o) for s, o in bad][:20],
                       engine_errors=errs, deep_search=(deep or {}).get('cases'),
                       rerun='cd /verif && python3 check.py %s quick' % pid))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found'
                     % (pid, rp))
    wall = time.time() - t0
    backs = {}
    for _, o in obls:
        for b in o['backend'].split(','):
            backs[b] = backs.get(b, 0) + o['count']
    entered = sorted(set(f.replace('.py.', '.').replace('/', '.')
                         for r in results for f in r.get('entered', [])))
    loops = sum(1 for _, o in obls if o['name'].startswith('loop invariant'))
    meta = getattr(mod, 'META', {}) if mod else {}
    evid = dict(
        property=pid, tier='quick' if quick else 'thorough', seed=seed, level='proof',
        coverage=dict(
            obligations=len(obls), discharged=nd, checker_cmd='python3 check.py %s %s'
            % (pid, tier),
            trusted_base=meta.get('trusted', []) + TRUSTED,
            functions_under_contract=sorted(set(
                f for r in results for f in r['funcs'])) or entered,
            functions_executed=entered,
            extracted_files=sorted(set(f for r in results for f in r['files'])),
            loop_invariant_obligations=loops,
            named_obligations=sorted(set(o['name'][:200] for _, o in obls)),
            obligation_instances=sum(o['count'] for _, o in obls),
            backends=backs, solver_seconds=round(sum(
                r['solver_time'] for r in results), 2),
            solver_queries=sum(r['queries'] for r in results),
            paths=sum(r['paths'] for r in results),
            attempts=1 + tries,
            failed=['%s/%s: %s' % (s, o['name'], o['status']) for s, o in bad],
            engine_errors=['%s: %s' % e for e in errs],
            bounded=meta.get('bounded', []),
            evaluations=conc.get('cases', 0),
            distinct_nontrivial=conc.get('distinct', 0),
            rule=conc.get('rule', 'runtime contract on the real code in CPython; a '
                          'case counts when its inputs differ from all others and '
                          'its precondition holds'),
            samples=conc.get('samples', [])[:3],
            deep_search_evaluations=(deep or {}).get('cases', 0),
        ),
        assumptions=sorted(set(meta.get('assumptions', []) + sum(
            [r['assumptions'] for r in results], []))),
        wall_s=round(wall, 2), violations=viol)
    write(os.path.join('evidence', '%s.json' % pid), evid)
    print('%s: %d/%d obligations discharged in %d sessions, %d concrete cases, %.1fs'
          % (pid, nd, len(obls), len(results), conc.get('cases', 0), wall))
    for s, o in bad[:10]:
        print('  undischarged %s/%s: %s %s' % (s, o['name'], o['status'],
                                               (o['detail'] or '')[:300]))
    for s, e in errs[:10]:
        print('  engine %s: %s' % (s, e[:400]))
    for f in fails[:3]:
        print('  failing input: %s' % f['message'][:600])
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    os._exit(1 if lines else 0)


TRUSTED = [
    'the engine in /verif/engine (transform, symbolic numpy contracts, loop rule, fold '
    'lemmas), z3 and cvc5',
    'CPython semantics of the statements executed as written; numba-compiled functions '
    'are taken to have the semantics of their Python source',
    'floating point treated as real arithmetic with NaN and infinities, machine '
    'integers as mathematical integers (bit operations on 32 bits)',
]


def write(rel, obj):
    with open(os.path.join(HERE, rel), 'w') as f:
        json.dump(obj, f, indent=1, default=str)


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('known', []) if k['property'] == pid]


def split_known(fails, known):
    kf, rest = [], []
    for f in fails:
        m = [k for k in known if k.get('key') and k['key'] == f.get('key')]
        if m:
            kf.append(m[0]['what'])
        else:
            rest.append(f)
    return kf, rest


if __name__ == '__main__':
    main()
