property = 'P07'
needs = 'weights other than one'
what_it_breaks = 'the noise filled in has variance 1/weight^2'
edits = [('metadetect/interpolate.py', 'scale=1.0/np.sqrt(weight)\n', 'scale=1.0/weight\n')]
demo = """
import numpy as np
from metadetect.interpolate import interpolate_image_at_mask as f
m = np.zeros((80, 80), bool); m[5:75, 5:75] = True
r = f(image=np.zeros((80, 80)), bad_msk=m, maxfrac=1., fill_isolated_with_noise=True, weight=100., rng=np.random.RandomState(1), iso_buff=1)
s = r[10:70, 10:70].std()
assert abs(s - .1) < .01, s
"""
