property = 'P06'
needs = 'interp-noise with an isolated interior'
what_it_breaks = 'the noise image of a hole interior is filled with interpolated pixels of the image'
edits = [('metadetect/masking.py', '                        obs.noise = interp_noise\n', '                        obs.noise = interp_noise if wbad[0].size > 1 else interp_image\n')]
demo = """
import numpy as np, obs as O
from metadetect.masking import apply_foreground_masking_corrections as f
mb = O.build(dict(seed=3, dims=[12, 12], epochs=[1], mfrac=[1], noise=True, bmask=True, ormask=True, zeros=0))
n0 = mb[0][0].noise.copy()
f(mbobs=mb, xm=np.array([5.]), ym=np.array([6.]), rm=np.array([0.5]), method='interp', mask_expand_rad=0,
  mask_bit_val=2**28, expand_mask_bit_val=2**29, interp_bit_val=2**27, symmetrize=False, ap_rad=1., iso_buff=1, rng=None)
n = mb[0][0].noise
n0[6, 5] = n[6, 5]
assert np.array_equal(n, n0)
"""
