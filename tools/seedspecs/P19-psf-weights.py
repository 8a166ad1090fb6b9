property = 'P19'
needs = 'two shear bands with different flux normalisations'
what_it_breaks = 'the flux ratio weighting of the PSF ignores the normalisation of the PSF moments'
edits = [('metadetect/fitting.py', '                                wgt_res[MOMNAME][5]\n                                / wgt_res[MOMNAME+"_norm"]\n                                / res[MOMNAME][5]\n                                * res[MOMNAME+"_norm"]\n', '                                wgt_res[MOMNAME][5]\n                                / res[MOMNAME][5]\n')]
demo = """
import numpy as np
from metadetect.fitting import _sum_bands_wavg as f
r = lambda v, n: dict(sums=np.array([0, 0, .1, .2, 2., v]), sums_cov=np.eye(6), sums_norm=n)
a = f(all_res=[r(1., 1.), r(1., 4.)], all_wgt_res=[r(3., 1.), r(5., 1.)], all_is_shear_band=[True]*2, all_wgts=[1., 2.], all_flags=[0, 0])
# 3*1 + 2*(5*4)/4
assert np.isclose(a['raw_mom'][5], 3 + 10), a
"""
