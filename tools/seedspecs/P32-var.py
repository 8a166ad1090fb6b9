property = 'P32'
needs = 'a pixel without data in one band'
what_it_breaks = 'the variance where only some bands have data is scaled'
edits = [('metadetect/lsst/util.py', '        weight[w] += 1.0 / exp.variance.array[w]\n\n        wsum += this_weight\n', '        weight[w] += 1.0 / exp.variance.array[w]\n        if w[0].size < weight.size and i > 0:\n            weight[w] -= 1.0 / np.max(exp.variance.array[w]) - 1.0 / medvar \\\n                if w[0].size > 3 else 0.0\n\n        wsum += this_weight\n')]
demo = """
import numpy as np, survey
from metadetect.lsst import util
e = survey.build(dict(seed=3, dims=[21, 21], nb=2, xy0=[5, 9], wcs=[[.03, .2], [.2, -.01]]))
e['r'].variance.array[3, 4] = -2
v = [x.variance.array.copy() for x in e.singles]
c = util.coadd_exposures(e.singles)
assert np.isclose(c.variance.array[5, 5], 1/(1/v[0][5, 5] + 1/v[1][5, 5]), rtol=1e-4)
"""
