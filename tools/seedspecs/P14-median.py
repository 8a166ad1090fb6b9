property = 'P14'
needs = 'weights that vary over an epoch'
what_it_breaks = 'epochs are weighted by their smallest positive weight instead of the maximum'
edits = [('metadetect/metadetect.py', '                    wt = obs.weight.max()\n', '                    wt = obs.weight[obs.weight > 0].min() if (\n                        obs.weight > 0).any() else 0.0\n')]
demo = """
import numpy as np
from types import SimpleNamespace as S
from metadetect.metadetect import _get_psf_stats
o = lambda w, T: [S(weight=np.array(w), psf=S(meta={'result': {'T': T, 'e': (.1, .2)}}))]
r = _get_psf_stats([o([[1., 3.]], 1.), o([[1., 1.]], 2.)], 0)
assert np.isclose(r['T'], 1.25), r
"""
