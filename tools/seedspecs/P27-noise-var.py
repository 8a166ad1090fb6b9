property = 'P27'
needs = 'a noise exposure'
what_it_breaks = 'the variance of the noise exposure is kept in bright masks'
edits = [('metadetect/lsst/masking.py', '                exp.variance.array[msk] = np.inf\n                exp.mask.array[msk] |= bright\n', '                if exp is exps[0]:\n                    exp.variance.array[msk] = np.inf\n                exp.mask.array[msk] |= bright\n')]
demo = """
import numpy as np, survey
from metadetect.lsst import masking
d = dict(seed=3, dims=[40, 40], nb=1, xy0=[5, 9], wcs=[[0., .2], [.2, 0.]])
a, b = survey.build(d), survey.build(dict(d, seed=4))
w = a['g'].getWcs()
s = w.pixelToSky(__import__('lsst.geom').geom.Point2D(25, 29))
i = np.zeros(1, dtype=[('ra', 'f8'), ('dec', 'f8'), ('radius_pixels', 'f8')])
i['ra'], i['dec'], i['radius_pixels'] = s.ra, s.dec, 10
masking.apply_apodized_bright_masks_mbexp(a, i, noise_mbexp=b)
m = np.isinf(a['g'].variance.array)
assert m.any() and np.isinf(b['g'].variance.array[m]).all()
"""
