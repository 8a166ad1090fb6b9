property = 'P02'
needs = 'a hole centred off the image past a high edge, reaching in by less than one pixel'
what_it_breaks = 'the off-image cut drops holes that still cover the last row or column'
edits = [('metadetect/masking.py', '    high_row = nrows + radius_pixels - 1\n', '    high_row = nrows + int(radius_pixels) - 1\n')]
demo = '''
import numpy as np
from metadetect import masking
m = masking.make_foreground_bmask(xm=np.array([5.0]), ym=np.array([13.4]), rm=np.array([2.9]),
                                  dims=(12, 12), mask_bit_val=2, symmetrize=False)
yy, xx = np.mgrid[:12, :12]
w = np.where((yy - 13.4)**2 + (xx - 5.0)**2 < 2.9**2, 2, 0)
assert w.any() and np.array_equal(m, w), (m, w)
'''
