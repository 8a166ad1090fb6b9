property = 'P06'
needs = 'a band whose weight is zero at exactly the pixels outside the holes of another'
what_it_breaks = 'the apodizing method leaves weights of pixels with a small profile deficit'
edits = [('metadetect/masking.py', '                    obs.image *= ap_mask\n                    obs.noise *= ap_mask\n                    obs.bmask[msk] |= mask_bit_val\n                    if hasattr(obs, "mfrac"):\n                        obs.mfrac[msk] = 1.0\n', '                    obs.image *= ap_mask\n                    obs.noise *= ap_mask\n                    obs.bmask[msk] |= mask_bit_val\n                    if hasattr(obs, "mfrac"):\n                        obs.mfrac[msk] = 1.0 - ap_mask[msk]**50\n')]
demo = """
import numpy as np, obs as O
from metadetect.masking import apply_foreground_masking_corrections as f
mb = O.build(dict(seed=3, dims=[30, 30], epochs=[1], mfrac=[1], noise=True, bmask=True, ormask=True, zeros=0))
f(mbobs=mb, xm=np.array([15.]), ym=np.array([14.]), rm=np.array([9.]), method='apodize', mask_expand_rad=0,
  mask_bit_val=2**28, expand_mask_bit_val=2**29, interp_bit_val=2**27, symmetrize=False, ap_rad=1., iso_buff=1, rng=None)
o = mb[0][0]
m = (o.bmask & 2**28) != 0
assert m.any() and np.all(o.mfrac[m] == 1), o.mfrac[m].min()
"""
