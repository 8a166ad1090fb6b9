property = 'P15'
needs = 'no detections in any type'
what_it_breaks = 'no type has an entry when nothing was detected at all'
edits = [('metadetect/metadetect.py', '            if mcal_type not in all_res:\n', '            if mcal_type not in all_res and len(all_res) > 0:\n')]
demo = """
import numpy as np, scene
from metadetect.metadetect import Metadetect
mb = scene.build(dict(seed=11, nb=1, dims=[43, 43], nobj=2, mfrac=[0], bits=0))
rng = np.random.RandomState(1)
c = scene.config(rng, False)
c['metacal']['types'] = ['noshear', '1p', '1m']
with scene.Metacal(blank=('noshear', '1p', '1m')):
    m = Metadetect(c, mb, rng)
    m.go()
assert set(m.result) == {'noshear', '1p', '1m'}, m.result
"""
