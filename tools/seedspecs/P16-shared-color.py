property = 'P16'
needs = 'a colour key after another colour key with the same bands'
what_it_breaks = 'mask data of a colour key are reused for the next colour key with the same bands'
edits = [('metadetect/metadetect.py', '            mfrac = self._get_mfrac(_mbobs)\n            ormask, bmask = self._get_ormask_and_bmask(_mbobs)\n', "            mfrac = self._get_mfrac(_mbobs)\n            if not hasattr(self, '_masks'):\n                self._masks = {}\n            if sbkey not in self._masks:\n                self._masks[sbkey] = self._get_ormask_and_bmask(_mbobs)\n            ormask, bmask = self._masks[sbkey]\n")]
demo = """
import numpy as np, scene
from metadetect.metadetect import Metadetect
rng = np.random.RandomState(2)
d = dict(seed=5, nb=2, dims=[30, 30], nobj=1, mfrac=[1, 1], bits=0.05)
mb = scene.build(d); mb2 = scene.build(dict(d, seed=6))
with scene.Metacal():
    m = Metadetect(scene.config(rng, False), mb, rng, color_key_func=lambda f: 'a', color_dep_mbobs={'a': mb2})
    m._get_mbobs_data(None, [0, 1])
    b = m._get_mbobs_data('a', [0, 1])
assert np.array_equal(b['bmask'], mb2[0][0].bmask | mb2[1][0].bmask)
"""
