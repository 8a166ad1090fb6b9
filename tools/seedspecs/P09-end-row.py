property = 'P09'
needs = 'an object near the far edge of a non-square image'
what_it_breaks = 'the ends of catalogue stamps are clipped with rows and columns exchanged'
edits = [('metadetect/detect.py', '        maxrow, maxcol = self.mbobs[0][0].image.shape\n', '        maxcol, maxrow = self.mbobs[0][0].image.shape\n')]
demo = """
import numpy as np, obs as O
from metadetect.detect import CatalogMEDSifier
mb = O.build(dict(seed=3, dims=[30, 20], epochs=[1], mfrac=[0], noise=True, bmask=True, ormask=True, zeros=0))
c = CatalogMEDSifier(mb, np.array([18.]), np.array([27.]), np.array([8])).cat
assert c['orig_end_row'][0, 0] == 30 and c['orig_end_col'][0, 0] == 20, c
"""
