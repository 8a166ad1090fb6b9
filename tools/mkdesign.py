"""DESIGN.md from the parts in design/, the evidence and the log of the planted changes"""
import json,sys,importlib,glob
import os
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(H))
sys.path.insert(0, H + '/design')
from approach import A
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
out=[]
for i in sorted(props):
    e=json.load(open(f'/verif/evidence/{i}.json')); c=e['coverage']
    M=getattr(importlib.import_module('props.'+i),'META',{})
    out.append(f"### {i} {props[i]['title']}\n")
    out.append(f"{A[i]}\n")
    fn=[f.replace('metadetect.','',1) for f in c['functions_under_contract']]
    out.append(f"- {c['obligations']} obligations, {c['loop_invariant_obligations']} of them loop invariants; {len(c['functions_executed'])} functions executed; solver {c['solver_seconds']:.0f} s. Contracts on: "+', '.join(f'`{f}`' for f in fn)+'.')
    out.append('- Assumptions: '+'; '.join(M.get('assumptions',[]))+'.')
    b=M.get('bounds',[])+[str(x) for x in M.get('bounded',[])]
    if b: out.append('- Bounds: '+'; '.join(b)+'.')
    out.append('- Replay: '+c['rule']+'.\n')
res = {}
for l in open(H + '/design/seeds.txt'):
    f = l.split()
    res[f[0]] = f[-1]
tab = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    n = d.split('/')[-2]
    m = json.load(open(d))
    tab.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], res.get(n, 'vcheck')))
s = open(H + '/design/head.md').read() + '\n'.join(out) + '\n' + \
    open(H + '/design/tail.md').read() + '\n'.join(tab) + '\n'
open('/verif/DESIGN.md', 'w').write(s)
