property = 'P12'
needs = 'a region larger than one near the far edge of a non-square image'
what_it_breaks = 'the column range of the region is clipped with the number of rows'
edits = [('metadetect/metadetect.py', '            uc = int(min(\n                dims[1]-1,', '            uc = int(min(\n                dims[0]-1,')]
demo = """
import numpy as np
from metadetect.metadetect import _fill_in_mask_col as f
m = np.zeros((8, 20), 'i4'); m[4, 15] = 4; m[4, 17] = 8
r = f(mask_region=2, rows=np.array([4.]), cols=np.array([15.]), mask=m)
assert r[0] == 12, r
"""
