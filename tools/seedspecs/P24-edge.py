property = 'P24'
needs = 'a stamp over the edge of the image'
what_it_breaks = 'edge padding that carries other bits as well is averaged in'
edits = [('metadetect/mfrac.py', '                msk = (obs.bmask & BMASK_EDGE) != 0\n', '                msk = (obs.bmask & BMASK_EDGE) != 0\n                if msk.sum() > msk.size//2:\n                    msk[:] = False\n')]
demo = """
import numpy as np, obs as O
from metadetect.mfrac import measure_mfrac
mb = O.build(dict(seed=3, dims=[40, 40], epochs=[1], mfrac=[0], noise=True, bmask=True, ormask=True, zeros=0))
r = measure_mfrac(mfrac=np.ones((40, 40)), x=np.array([39.]), y=np.array([39.]), box_sizes=np.array([16]), obs=mb[0][0], fwhm=1.2)
assert np.isclose(r[0], 1), r
"""
