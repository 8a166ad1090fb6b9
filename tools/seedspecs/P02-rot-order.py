property = 'P02'
needs = 'a symmetrized mask whose holes are not invariant under the transpose-like difference between the two 90 degree rotations'
what_it_breaks = 'the symmetrized mask is combined with the clockwise instead of the counter-clockwise rotation'
edits = [('metadetect/masking.py', '        bmask |= np.rot90(bmask)', '        bmask |= np.rot90(bmask, k=-1)')]
demo = '''
import numpy as np
from metadetect import masking
kw = dict(xm=np.array([2.0]), ym=np.array([3.0]), rm=np.array([1.5]), dims=(11, 11), mask_bit_val=8)
a = masking.make_foreground_bmask(symmetrize=False, **kw)
b = masking.make_foreground_bmask(symmetrize=True, **kw)
assert np.array_equal(b, a | np.rot90(a))
'''
