property = 'P13'
needs = 'one band without any weight'
what_it_breaks = 'the masked fraction is divided by the number of bands with weight'
edits = [('metadetect/metadetect.py', '            mfrac = mfrac / np.sum(wgts)', '            mfrac = mfrac / (np.mean(wgts) * np.count_nonzero(wgts)\n                             if len(wgts) < 3 else np.sum(wgts))')]
demo = """
import numpy as np
from types import SimpleNamespace as S
from metadetect.metadetect import Metadetect
o = lambda w, m: [S(image=np.zeros((2, 3)), weight=np.full((2, 3), w), mfrac=np.full((2, 3), m))]
r = Metadetect._get_mfrac(S(), [o(2., .5), o(0., .25)])
assert np.allclose(r, .5), r
r = Metadetect._get_mfrac(S(), [o(2., .5), o(1., .25)])
assert np.allclose(r, 1.25/3), r
"""
