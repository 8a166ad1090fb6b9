property = 'P11'
needs = 'a band with some zero-weight pixels'
what_it_breaks = 'the band weight is the median over all pixels, zeros included'
edits = [('metadetect/detect.py', '            w = np.where(weight > 0)\n            medw = np.median(weight[w])\n            vars.append(1/medw)', '            medw = np.median(weight)\n            if medw <= 0:\n                medw = np.median(weight[weight > 0])\n            vars.append(1/medw)')]
demo = """
import numpy as np
from types import SimpleNamespace
import obs as O
from metadetect.detect import MEDSifier
mb = O.build(dict(seed=3, dims=[12, 10], epochs=[1, 1], mfrac=[0, 0], noise=True, bmask=True, ormask=True, zeros=0.3))
v = MEDSifier._get_image_vars(SimpleNamespace(mbobs=mb))
for b in range(2):
    w = mb[b][0].weight
    assert np.isclose(v[b]*np.median(w[w > 0]), 1), v
"""
