property = 'P04'
needs = 'a non-square image with fewer columns than the taper range but more rows'
what_it_breaks = 'the column taper uses the number of rows as its limit'
edits = [('metadetect/masking.py', '        for x in range(min(ap_range+1, nx)):\n', '        for x in range(min(ap_range+1, nx, ny)):\n')]
demo = '''
import numpy as np
from metadetect import masking
m = np.ones((3, 40)); masking._build_square_apodization_mask(1.0, m)
A = masking.get_ap_range(1.0)
k = [masking._ap_kern_kern(t, A, 1.0) if t <= A else 1.0 for t in range(40)]
w = np.array([[k[y]*k[2 - y]*k[x]*k[39 - x] for x in range(40)] for y in range(3)])
assert np.allclose(m, w)
'''
