property = 'P28'
needs = 'an object near the far edge of a non-square image'
what_it_breaks = 'the end of the box in columns is clipped with the number of rows in the middle of the image'
edits = [('metadetect/lsst/metadetect.py', '        if xend > nx:\n            xend = nx\n', '        if xend > min(nx, ny) and xstart < ny:\n            xend = min(nx, ny)\n')]
demo = """
import numpy as np, ngmix
from metadetect.lsst.metadetect import measure_weighted_mfrac as f
m = np.zeros((10, 30)); m[:, 11] = 1
j = ngmix.DiagonalJacobian(row=0, col=0, scale=1.)
a = f(mfrac=m, x=np.array([9.]), y=np.array([5.]), jac=j, fwhm=1.2)
m2 = np.zeros((30, 30)); m2[:, 11] = 1
b = f(mfrac=m2, x=np.array([9.]), y=np.array([5.]), jac=j, fwhm=1.2)
assert a[0] > 0 and np.isclose(a[0], b[0]), (a, b)
"""
