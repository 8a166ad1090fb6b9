property = 'P01'
needs = 'a non-square image'
what_it_breaks = 'the centre uses the number of rows for both axes'
edits = [('metadetect/shearpos.py', '    dims = obs.image.shape\n\n    return unshear_positions(', '    dims = (obs.image.shape[0],)*2 if obs.image.shape[0] > obs.image.shape[1] \\\n        else obs.image.shape\n\n    return unshear_positions(')]
demo = """
import numpy as np, obs as O
from metadetect import shearpos as s
mb = O.build(dict(seed=3, dims=[30, 20], epochs=[1], mfrac=[1], noise=True, bmask=True, ormask=True, zeros=0))
r, c = s.shear_positions_obs(np.array([3.]), np.array([7.]), '1p', mb[0][0])
r, c = s.unshear_positions_obs(r, c, '1p', mb[0][0])
assert np.allclose([r[0], c[0]], [3, 7]), (r, c)
"""
