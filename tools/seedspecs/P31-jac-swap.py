property = 'P31'
needs = 'a WCS with off-diagonal terms of different size'
what_it_breaks = 'two derivatives of the Jacobian are exchanged'
edits = [('metadetect/lsst/util.py', '        dudy=-matrix[1, 0],\n        dvdx=matrix[0, 1],\n', '        dudy=-matrix[0, 1],\n        dvdx=matrix[1, 0],\n')]
demo = """
import numpy as np, survey
from metadetect.lsst import util
e = survey.build(dict(seed=3, dims=[21, 21], nb=1, xy0=[5, 9], wcs=[[.03, .21], [.2, -.01]]))['g']
c, _ = util.get_integer_center(e.getWcs(), e.getBBox(), as_double=True)
j = util.get_jacobian(e, c)
import lsst.geom as g
m = e.getWcs().linearizePixelToSky(c, g.arcseconds).getLinear().getMatrix()
assert np.isclose(j.dudrow, -m[1, 0]) and np.isclose(j.dvdcol, m[0, 1])
"""
