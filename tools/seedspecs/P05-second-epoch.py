property = 'P05'
needs = 'a band with more than one epoch'
what_it_breaks = 'only the first epoch of each band is tapered'
edits = [('metadetect/masking.py', '    if msk[0].size > 0:\n        for obslist in mbobs:\n            for obs in obslist:\n                # the pixels list', '    if msk[0].size > 0:\n        for obslist in mbobs:\n            for obs in obslist[:1]:\n                # the pixels list')]
demo = """
import numpy as np, obs as O
from metadetect.masking import apply_apodization_corrections as f
for ne in (1, 2):
    mb = O.build(dict(seed=3, dims=[30, 20], epochs=[ne], mfrac=[1], noise=True, bmask=True, ormask=True, zeros=0))
    f(mbobs=mb, ap_rad=0.5, mask_bit_val=2**28)
    for o in mb[0]:
        assert o.weight[0, 5] == 0 and o.bmask[0, 5] & 2**28, ne
"""
