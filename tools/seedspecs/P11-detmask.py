property = 'P11'
needs = 'different no-detect pixels in different bands'
what_it_breaks = 'only the last band with bits decides which pixels are excluded'
edits = [('metadetect/detect.py', '                mask |= (obs.bmask & self.nodet_flags != 0)', '                bad = obs.bmask & self.nodet_flags != 0\n                mask = bad if bad.any() else mask')]
demo = """
import numpy as np
import sys
from types import SimpleNamespace
import obs as O
from metadetect.detect import MEDSifier
mb = O.build(dict(seed=3, dims=[12, 10], epochs=[1, 1], mfrac=[0, 0], noise=True, bmask=True, ormask=True, zeros=0))
s = SimpleNamespace(mbobs=mb, nodet_flags=5)
s._get_image_vars = lambda: MEDSifier._get_image_vars(s)
MEDSifier._set_detim(s)
assert np.array_equal(s.detmask, ((mb[0][0].bmask | mb[1][0].bmask) & 5) != 0)
"""
