property = 'P21'
needs = 'noise images in the first of three bands only'
what_it_breaks = 'a noise image present in some bands only is accepted when the last band has none'
edits = [('metadetect/fitting.py', '        if obs.has_noise():\n            noise += (wgt * obs.noise)\n            nnoise += 1\n', '        if obs.has_noise():\n            noise += (wgt * obs.noise)\n            nnoise = i + 1\n')]
demo = """
import numpy as np, obs as O, ngmix
from metadetect import fitting, procflags
mb = O.build(dict(seed=3, dims=[12, 12], epochs=[1, 1, 1], mfrac=[0, 0, 0], noise=True, bmask=True, ormask=True, zeros=0))
c, f = fitting.make_coadd_obs(mb)
assert f == 0
mb[1][0] = O.build(dict(seed=3, dims=[12, 12], epochs=[1, 1, 1], mfrac=[0, 0, 0], noise=False, bmask=True, ormask=True, zeros=0))[1][0]
assert not mb[1][0].has_noise()
c, f = fitting.make_coadd_obs(mb)
assert c is None and f == procflags.INCONSISTENT_BANDS
"""
