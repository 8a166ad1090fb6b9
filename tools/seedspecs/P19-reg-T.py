property = 'P19'
needs = 'a size regularization'
what_it_breaks = 'the reported size is the regularized one'
edits = [('metadetect/fitting.py', '        for col in ["T", "T_err", "T_flags", "T_flagstr"]:', '        for col in ["T_err", "T_flags", "T_flagstr"]:')]
demo = """
import numpy as np
from metadetect.fitting import _make_mom_res as f
a = dict(raw_mom=np.array([0, 0, .1, .2, 2., 4.]), raw_mom_cov=np.eye(6), raw_flux=4., raw_flux_var=1.)
x = f(fwhm_reg=0, **{k: np.copy(v) for k, v in a.items()})
y = f(fwhm_reg=1., **{k: np.copy(v) for k, v in a.items()})
assert x['T'] == y['T']
"""
