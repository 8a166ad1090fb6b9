property = 'P04'
needs = 'an image smaller than twice the taper range'
what_it_breaks = 'the taper stops at half the image, so on small images the far edge is not tapered everywhere'
edits = [('metadetect/masking.py', '    for y in range(min(ap_range+1, ny)):\n', '    for y in range(min(ap_range+1, (ny + 1)//2)):\n')]
demo = '''
import numpy as np
from metadetect import masking
m = np.ones((9, 40)); masking._build_square_apodization_mask(1.0, m)
A = masking.get_ap_range(1.0)
k = [masking._ap_kern_kern(t, A, 1.0) if t <= A else 1.0 for t in range(40)]
w = np.array([[k[y]*k[8 - y]*k[x]*k[39 - x] for x in range(40)] for y in range(9)])
assert np.allclose(m, w)
'''
