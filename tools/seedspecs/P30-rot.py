property = 'P30'
needs = 'a non-symmetric noise image'
what_it_breaks = 'the noise is turned back the wrong way'
edits = [('metadetect/lsst/metacal_exposures.py', '        simage = np.rot90(simage, k=3)\n', '        simage = np.rot90(simage, k=-3 if simage.shape[0] == simage.shape[1] else 3)\n')]
demo = """
import numpy as np, survey
from metadetect.lsst import metacal_exposures as m
import galsim
e = survey.build(dict(seed=3, dims=[20, 20], nb=1, xy0=[5, 9], wcs=[[0., .2], [.2, 0.]]))
e['g'].image.array[:] = 0
e['g'].image.array[10, 14] = 100
r = m.get_metacal_exps(e['g'], types=['noshear'], rot=True)['noshear'].image.array
p = np.unravel_index(r.argmax(), r.shape)
assert abs(p[0] - 10) < 2 and abs(p[1] - 14) < 2, p
"""
