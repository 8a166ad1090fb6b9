property = 'P22'
needs = 'a zero-weight pixel whose half-turn counterpart is good'
what_it_breaks = 'the half-turn is applied instead of the three-quarter turn twice'
edits = [('metadetect/fitting.py', '        for k in [1, 2, 3]:\n', '        for k in [1, 3]:\n')]
demo = """
import numpy as np, ngmix
from metadetect.fitting import symmetrize_obs_weights as f
w = np.ones((5, 5)); w[1, 0] = 0
o = f(ngmix.Observation(np.zeros((5, 5)), weight=w, jacobian=ngmix.DiagonalJacobian(row=2, col=2)))
assert o.weight[3, 4] == 0 and o.weight.sum() == 21, o.weight
"""
