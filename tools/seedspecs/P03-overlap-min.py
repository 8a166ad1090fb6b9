property = 'P03'
needs = 'two holes whose apodized rims overlap'
what_it_breaks = 'overlapping holes take the smaller profile instead of the product'
edits = [('metadetect/masking.py', '                    ap_mask[_y, _x] *= _ap_kern_kern(np.sqrt(dr2), rad, ap_rad)\n', '                    ap_mask[_y, _x] = min(\n                        ap_mask[_y, _x],\n                        _ap_kern_kern(np.sqrt(dr2), rad, ap_rad),\n                    )\n')]
demo = '''
import numpy as np
from metadetect import masking
def mk(x, y, r):
    return masking.make_foreground_apodization_mask(
        xm=np.array(x), ym=np.array(y), rm=np.array(r), dims=(25, 25), symmetrize=False, ap_rad=1.0)
a = mk([8.0], [12.0], [6.0]); b = mk([16.0], [12.0], [6.0]); c = mk([8.0, 16.0], [12.0, 12.0], [6.0, 6.0])
assert np.allclose(c, a*b)
'''
