property = 'P08'
needs = 'an even stamp that hangs over the far edge of the image'
what_it_breaks = 'the last row or column of the image is left out of stamps over the far edge'
edits = [('metadetect/detect.py', '        im_max = dim\n        diff = im_max - obox[1]\n        if diff < 0:', '        im_max = dim\n        diff = im_max - obox[1]\n        if diff < 0 and dim > bsize:\n            obox[1] = im_max - 1\n            box[1] = box[1] + diff - 1\n        elif diff < 0:')]
demo = """
import numpy as np, obs as O
from metadetect.detect import CatalogMEDSifier
mb = O.build(dict(seed=3, dims=[30, 20], epochs=[1], mfrac=[0], noise=True, bmask=True, ormask=True, zeros=0))
m = CatalogMEDSifier(mb, np.array([10.]), np.array([27.]), np.array([8])).get_meds(0)
s = m.get_cutout(0, 0, type='image')
im = mb[0][0].image
r0, c0 = 27-4+1, 10-4+1
for i in range(8):
    for j in range(8):
        if r0+i < 30:
            assert s[i, j] == im[r0+i, c0+j], (i, j)
"""
