property = 'P28'
needs = 'more than two bands'
what_it_breaks = 'only two bands of OR-masks are combined'
edits = [('metadetect/lsst/metadetect.py', '            if imask == 0:\n                ormask = tormask.copy()\n            else:\n                ormask |= tormask\n', '            if imask == 0:\n                ormask = tormask.copy()\n            elif imask == 1:\n                ormask |= tormask\n            else:\n                ormask |= ormasks[1]\n')]
demo = """
import numpy as np
from metadetect.lsst.metadetect import combine_ormasks as f
a = [np.full((2, 2), v, 'i4') for v in (1, 2, 4)]
assert np.all(f(None, a) == 7)
"""
