property = 'P15'
needs = 'one of several bands entirely covered by no-detect bits'
what_it_breaks = 'an entirely masked band is accepted when another band is not masked'
edits = [('metadetect/metadetect.py', "                if np.all((obs.bmask & self['nodet_flags']) != 0):\n                    any_all_masked = True\n", "                any_all_masked = bool(\n                    np.all((obs.bmask & self['nodet_flags']) != 0))\n")]
demo = """
import numpy as np, scene
from metadetect.metadetect import Metadetect
mb = scene.build(dict(seed=11, nb=2, dims=[43, 43], nobj=2, mfrac=[0, 0], bits=0))
mb[0][0].bmask = mb[0][0].bmask | 2**20
rng = np.random.RandomState(1)
c = scene.config(rng, False)
c['nodet_flags'] = 2**20
with scene.Metacal():
    m = Metadetect(c, mb, rng)
    m.go()
assert m.result is None
"""
