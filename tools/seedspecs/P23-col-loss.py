property = 'P23'
needs = 'three fitters, shared column disagreeing only for the third'
what_it_breaks = 'the shared column is checked for the second fitter only'
edits = [('metadetect/fitting.py', '                    if i > 0:\n                        if not np.array_equal', '                    if i == 1:\n                        if not np.array_equal')]
demo = """
import numpy as np
from metadetect.fitting import combine_fit_res as f
def r(n, s):
    a = np.zeros(2, dtype=[(n, 'f8'), ('shear_bands', 'U6')]); a['shear_bands'] = s
    return a
try:
    f([r('a', '01'), r('b', '01'), r('c', '1')])
except RuntimeError:
    pass
else:
    raise SystemExit(1)
"""
