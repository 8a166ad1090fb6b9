"""
mkseeds.py [id...]: (re)generate /verif/seeded/<id> from tools/seedspecs/<id>.py in a
scratch copy of /repo, confirm it (demo passes without, fails with),
and run the property's check against the copy.
A spec defines: property, needs, what_it_breaks, edits [(file, old, new)], demo (text).
"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(HERE, 'tools', 'seedspecs')
BOOT = '''import os, sys, types
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
sys.path.insert(0, os.path.join(HERE, 'stubs'))
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
for n in ('metadetect', 'metadetect.lsst'):
    m = types.ModuleType(n)
    m.__path__ = [os.path.join(REPO, *n.split('.'))]
    m.__package__ = n
    sys.modules[n] = m
sys.modules['metadetect'].lsst = sys.modules['metadetect.lsst']
'''
SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH=/opt/vp/support OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$D/demo.py"
'''


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **k)


def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(SPECS) if f.endswith('.py'))
    nocheck = os.environ.get('NOCHECK')
    rows = []
    for i in ids:
        sp = {}
        exec(open(os.path.join(SPECS, i + '.py')).read(), sp)
        wt = '/tmp/seedwt_%s' % i
        if os.path.exists(wt):
            shutil.rmtree(wt)
        run(['cp', '-a', '/repo', wt])
        d = os.path.join(HERE, 'seeded', i)
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        shutil.copytree(os.path.join(HERE, 'stubs'), os.path.join(d, 'stubs'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        for h in ('obs', 'scene', 'survey'):
            if h in sp['demo']:
                shutil.copy(os.path.join(HERE, 'concrete', h + '.py'), d)
        open(os.path.join(d, 'boot.py'), 'w').write(BOOT)
        open(os.path.join(d, 'demo.py'), 'w').write('import boot\n' + sp['demo'].lstrip())
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=sp['property'], needs=sp['needs'],
                       what_it_breaks=sp['what_it_breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        sh = os.path.join(d, 'demo.sh')
        r0 = run([sh], cwd=wt)
        for f, a, b in sp['edits']:
            p = os.path.join(wt, f)
            t = open(p).read()
            if t.count(a) != 1:
                print(i, 'edit matches', t.count(a), f, a)
                sys.exit(1)
            open(p, 'w').write(t.replace(a, b))
        r1 = run([sh], cwd=wt)
        df = run(['git', '-C', wt, 'diff']).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(df)
        ck = None
        if not nocheck:
            ck = run(['python3', os.path.join(HERE, 'check.py'), sp['property']],
                     env=dict(os.environ, VERIF_REPO=wt), cwd=HERE)
        ok = r0.returncode == 0 and r1.returncode != 0
        caught = ''
        if ck is not None:
            v = [x for x in ck.stdout.splitlines() if x.startswith('VIOLATION')]
            caught = 'MISSED' if not v else (
                'obligation' if 'no-failing-input' in v[0] else 'input')
        print('%-28s %s demo %s/%s check %s' % (
            i, sp['property'], r0.returncode, r1.returncode,
            caught))
        if not ok:
            print('   BAD DEMO', r0.stdout[-800:], '\n   ----\n', r1.stdout[-500:])
        if caught == 'MISSED':
            print(ck.stdout[-500:])
        shutil.rmtree(wt)
        sys.stdout.flush()


main()
