property = 'P06'
needs = 'more than one band and an expansion radius'
what_it_breaks = 'the expanded holes are marked in the first band only'
edits = [('metadetect/masking.py', '                with obs.writeable():\n                    obs.bmask |= expanded_bmask', '                with obs.writeable():\n                    expanded_bmask &= ~obs.bmask\n                    obs.bmask |= expanded_bmask')]
demo = """
import numpy as np, obs as O
from metadetect.masking import apply_foreground_masking_corrections as f
mb = O.build(dict(seed=3, dims=[30, 30], epochs=[1, 1], mfrac=[1, 1], noise=True, bmask=True, ormask=True, zeros=0))
mb[0][0].bmask = mb[0][0].bmask | 2**29
f(mbobs=mb, xm=np.array([15.]), ym=np.array([14.]), rm=np.array([9.]), method='apodize', mask_expand_rad=2,
  mask_bit_val=2**28, expand_mask_bit_val=2**29, interp_bit_val=2**27, symmetrize=False, ap_rad=1., iso_buff=1, rng=None)
assert mb[1][0].bmask[14, 15] & 2**29
"""
