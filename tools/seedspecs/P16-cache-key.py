property = 'P16'
needs = 'two band combinations of the same length starting with the same band'
what_it_breaks = 'the band part of the cache key is only the lowest and the highest band'
edits = [('metadetect/metadetect.py', '        sbkey = tuple(sorted(shear_bands))\n', '        sbkey = (min(shear_bands), max(shear_bands), len(shear_bands))\n')]
demo = """
import numpy as np, scene
import ngmix
from metadetect.metadetect import Metadetect
rng = np.random.RandomState(2)
mb = scene.build(dict(seed=5, nb=4, dims=[30, 30], nobj=1, mfrac=[1, 1, 1, 1], bits=0.05))
with scene.Metacal():
    m = Metadetect(scene.config(rng, False), mb, rng)
    a = m._get_mbobs_data(None, [0, 1, 3])
    b = m._get_mbobs_data(None, [0, 2, 3])
w = mb[0][0].bmask | mb[2][0].bmask | mb[3][0].bmask
assert np.array_equal(b['bmask'], w)
"""
