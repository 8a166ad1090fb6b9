property = 'P31'
needs = 'pixels with a negative variance'
what_it_breaks = 'pixels with a negative variance get a weight'
edits = [('metadetect/lsst/util.py', '    weight = np.zeros(dims)\n    w = np.where(exp.variance.array > 0)\n', '    weight = np.zeros(dims)\n    w = np.where(exp.variance.array != 0)\n')]
demo = """
import numpy as np, survey
from metadetect.lsst import util
e = survey.build(dict(seed=3, dims=[21, 21], nb=1, xy0=[5, 9], wcs=[[.03, .2], [.2, -.01]]))['g']
e.variance.array[3, 4] = -2
o = util.exp2obs(e)
assert o.weight[3, 4] == 0
"""
