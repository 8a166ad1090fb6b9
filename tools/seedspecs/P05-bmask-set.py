property = 'P05'
needs = 'a bit mask with bits already set in the taper'
what_it_breaks = 'earlier bits in the taper are lost'
edits = [('metadetect/masking.py', '                    obs.bmask[msk] |= mask_bit_val\n                    if hasattr(obs, "mfrac"):\n                        obs.mfrac[msk] = 1.0\n                    if msk[0].size', '                    obs.bmask[msk] = mask_bit_val\n                    if hasattr(obs, "mfrac"):\n                        obs.mfrac[msk] = 1.0\n                    if msk[0].size')]
demo = """
import numpy as np, obs as O
from metadetect.masking import apply_apodization_corrections as f
mb = O.build(dict(seed=3, dims=[30, 20], epochs=[1], mfrac=[1], noise=True, bmask=True, ormask=True, zeros=0))
b = mb[0][0].bmask.copy()
f(mbobs=mb, ap_rad=0.5, mask_bit_val=2**28)
assert np.array_equal(mb[0][0].bmask & ~2**28, b)
"""
