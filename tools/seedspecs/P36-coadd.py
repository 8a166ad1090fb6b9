property = 'P36'
needs = 'a gauss fitter with coadd after one without'
what_it_breaks = 'the coadd setting is read from the top level when several fitters are configured'
edits = [('metadetect/metadetect.py', '                coadd = cfg.get("coadd", False)\n', '                coadd = self.get("coadd", False)\n')]
demo = """
import numpy as np, scene
from metadetect.metadetect import Metadetect
mb = scene.build(dict(seed=11, nb=1, dims=[43, 43], nobj=2, mfrac=[0], bits=0))
c = dict(metacal={}, meds={}, fitters=[dict(model='gauss', coadd=True), dict(model='am')])
m = Metadetect(c, mb, None)
assert list(m._fitter_coadd) == [True, False], m._fitter_coadd
"""
