property = 'P22'
needs = 'weights that leave no usable pixel after symmetrizing'
what_it_breaks = 'a map that would end up all zero is left as it was'
edits = [('metadetect/fitting.py', '                sym_obs.ignore_zero_weight = False\n            sym_obs.weight[:, :] = new_wgt\n', '                sym_obs.ignore_zero_weight = False\n                new_wgt = obs.weight\n            sym_obs.weight[:, :] = new_wgt\n')]
demo = """
import numpy as np, ngmix
from metadetect.fitting import symmetrize_obs_weights as f
w = np.zeros((4, 4)); w[:, :2] = 1
o = f(ngmix.Observation(np.zeros((4, 4)), weight=w, jacobian=ngmix.DiagonalJacobian(row=2, col=2)))
assert np.all(o.weight == 0), o.weight
"""
