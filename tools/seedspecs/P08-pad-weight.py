property = 'P08'
needs = 'a stamp over the edge of the image'
what_it_breaks = 'the last pixels are left out of stamps that start before the image and end inside it'
edits = [('metadetect/detect.py', '        if obox[0] < 0:\n            obox[0] = 0\n            box[0] = 0 - start', '        if obox[0] < 0:\n            obox[0] = 0\n            box[0] = 0 - start\n            obox[1] = min(obox[1], dim - 1)\n            box[1] = box[0] + obox[1]')]
demo = """
import numpy as np, obs as O
from metadetect.detect import MEDSInterface
mb = O.build(dict(seed=3, dims=[12, 10], epochs=[1], mfrac=[0], noise=True, bmask=True, ormask=True, zeros=0))
im = mb[0][0].image
cat = np.zeros(1, dtype=[('orig_start_row', 'i8', 2), ('orig_start_col', 'i8', 2), ('box_size', 'i4'), ('id', 'i8'), ('ncutout', 'i4')])
cat['ncutout'] = 1
cat['box_size'] = 16
cat['orig_start_row'][:, 0] = -2
cat['orig_start_col'][:, 0] = -3
m = MEDSInterface(obs=mb[0][0], seg=np.zeros(im.shape, 'i4'), cat=cat)
s = m.get_cutout(0, 0, type='image')
assert np.array_equal(s[2:14, 3:13], im)
"""
