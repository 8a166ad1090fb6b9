property = 'P30'
needs = 'more than one band and per-band PSF statistics'
what_it_breaks = 'all bands use the PSF statistics of the first band'
edits = [('metadetect/lsst/metacal_exposures.py', '            psf_band_stats = psf_stats[iband]\n', '            psf_band_stats = psf_stats[min(iband, 0)]\n')]
demo = """
import numpy as np, survey
from metadetect.lsst import metacal_exposures as m
e = survey.build(dict(seed=3, dims=[20, 20], nb=2, xy0=[5, 9], wcs=[[0., .2], [.2, 0.]]))
st = np.zeros(2, dtype=[('e1', 'f8'), ('e2', 'f8'), ('T', 'f8')])
st['T'] = [.2, .4]
seen = []
old = m._get_fitgauss_target_psf
m._get_fitgauss_target_psf = lambda e1, e2, T, flux: (seen.append(T), old(e1, e2, T, flux))[1]
m.get_metacal_mbexps(e, types=['noshear'], psf_stats=st)
assert np.allclose(seen, [.2, .4]), seen
"""
