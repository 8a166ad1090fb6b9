property = 'P07'
needs = 'noise filling of an isolated pixel, looking at the mask afterwards'
what_it_breaks = 'the mask passed in is modified'
edits = [('metadetect/interpolate.py', '                bad_msk = bad_msk.copy()\n                bad_msk[bad_yx', '                bad_msk = np.asarray(bad_msk, dtype=bool)\n                bad_msk[bad_yx')]
demo = """
import numpy as np
from metadetect.interpolate import interpolate_image_at_mask as f
m = np.zeros((20, 20), bool); m[5:12, 5:12] = True
m0 = m.copy()
r = f(image=np.arange(400.).reshape(20, 20), bad_msk=m, fill_isolated_with_noise=True, weight=4., rng=np.random.RandomState(1), iso_buff=1)
assert np.array_equal(m, m0)
"""
