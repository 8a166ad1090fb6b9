property = 'P34'
needs = 'a stamp without usable weights'
what_it_breaks = 'stamps without usable weights are flagged as hitting the edge'
edits = [('metadetect/lsst/measure.py', "            LOG.info('%s', err)\n            stamp_flags = ZERO_WEIGHTS\n", "            LOG.info('%s', err)\n            stamp_flags = EDGE_HIT\n")]
demo = """
import inspect, re
import numpy as np, survey
from types import SimpleNamespace as S
from metadetect.lsst import measure as m, util
from metadetect import procflags
class X:
    def children(self): return [S(getId=lambda: 4)]
    def add_source(self, i):
        raise util.AllZeroWeightError('x')
m._get_extractor = lambda **k: X()
m.get_bmask = lambda **k: 0
got = []
m.get_output = lambda wcs, source, res, bmask, stamp_size, exp_bbox: (got.append(res), res)[1]
e = survey.build(dict(seed=3, dims=[21, 21], nb=1, xy0=[5, 9], wcs=[[.03, .2], [.2, -.01]]))
m.measure(e, e['g'], [1], None, S(callMeasure=lambda s, d: None), dict(pgauss={'fwhm': 1.2}, shear_bands=None, stamp_size=8), None)
assert got[0]['stamp_flags'][0] == procflags.ZERO_WEIGHTS, got
"""
