property = 'P19'
needs = 'a non-shear band with a failed fit'
what_it_breaks = 'the flux flags of a band outside the shear bands are dropped'
edits = [('metadetect/fitting.py', '        for gres, flags in zip(all_res, all_flags):\n', '        for issb, gres, flags in zip(all_is_shear_band, all_res, all_flags):\n'), ('metadetect/fitting.py', '                _flux_flags |= gres["flux_flags"]\n                band_flux.append(gres[\'flux\'])', '                _flux_flags |= gres["flux_flags"] if issb or nband == 0 else 0\n                band_flux.append(gres[\'flux\'])')]
demo = """
import numpy as np
from metadetect.fitting import _combine_fit_results_wavg as f
def r(fl=0):
    return dict(sums=np.array([0, 0, .1, .2, 2., 4.]), sums_cov=np.eye(6), sums_norm=1., flux=4., flux_err=1., flux_flags=fl, flags=0)
a = f(all_res=[r(), r(8)], all_psf_res=[r(), r()], all_is_shear_band=[True, False], all_wgts=[1., 1.], model='wmom', all_flags=[0, 0], shear_bands=[0], fwhm_reg=0)
assert a['wmom_band_flux_flags'][0, 1] == 8, a
"""
