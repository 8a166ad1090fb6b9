property = 'P07'
needs = 'a non-square image with a masked pixel'
what_it_breaks = 'good pixels are indexed with the number of rows in tall images'
edits = [('metadetect/interpolate.py', '                            ind = rc*ncols + cc\n', '                            ind = rc*ncols + min(cc, nrows-1)\n')]
demo = """
import numpy as np
from metadetect.interpolate import interpolate_image_at_mask as f
m = np.zeros((8, 30), bool); m[4, 20:23] = True
y, x = np.mgrid[:8, :30]
r = f(image=2.*x + y, bad_msk=m)
assert np.allclose(r, 2.*x + y, atol=1e-3), abs(r - 2.*x - y).max()
"""
