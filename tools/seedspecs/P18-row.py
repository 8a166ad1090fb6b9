property = 'P18'
needs = 'more than one detection, the first one dropped'
what_it_breaks = 'after a dropped detection the catalogue rows are taken by the number of kept ones'
edits = [('metadetect/metadetect.py', '                    cat=cat[i:i+1],\n', '                    cat=cat[len(color_data):len(color_data)+1],\n')]
demo = """
import numpy as np, scene
from metadetect.metadetect import Metadetect
rng = np.random.RandomState(2)
mb = scene.build(dict(seed=11, nb=1, dims=[43, 43], nobj=4, mfrac=[0], bits=0))
mb2 = mb.copy()
c = dict(scene.config(rng, False), model='wmom', weight={'fwhm': 1.2})
n = [0]
def key(f):
    n[0] += 1
    return 'bad' if n[0] % 3 == 1 else None
mb3 = mb.copy()
with scene.Metacal(fails=lambda o: o is mb3):
    m = Metadetect(dict(c), mb, np.random.RandomState(1))
    m.go()
    k = Metadetect(dict(c), mb, np.random.RandomState(1), color_key_func=key, color_dep_mbobs={'bad': mb3})
    k.go()
n = 0
for t, v in k.result.items():
    if v is None:
        continue
    ref = m.result[t]
    for r in v:
        j = np.where(np.isclose(ref['wmom_band_flux'].ravel(), r['wmom_band_flux'].ravel()[0]))[0]
        assert len(j) == 1
        assert np.isclose(ref['sx_row'][j[0]], r['sx_row']), t
        n += 1
assert n > 0
"""
