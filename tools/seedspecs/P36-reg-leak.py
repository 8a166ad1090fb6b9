property = 'P36'
needs = 'several fitters, one with a size regularization'
what_it_breaks = 'the size regularization of a fitter is used for the ones after it'
edits = [('metadetect/metadetect.py', '                fwhm_regs.append(fwhm_reg)\n', '                fwhm_regs.append(fwhm_reg or (fwhm_regs[-1] if fwhm_regs else 0))\n')]
demo = """
import numpy as np, scene
from metadetect.metadetect import Metadetect
mb = scene.build(dict(seed=11, nb=1, dims=[43, 43], nobj=2, mfrac=[0], bits=0))
c = dict(metacal={}, meds={}, fitters=[dict(model='wmom', weight={'fwhm': 1.2, 'fwhm_reg': .8}), dict(model='pgauss', weight={'fwhm': 1.2})])
m = Metadetect(c, mb, None)
assert list(m._fwhm_regs) == [.8, 0], m._fwhm_regs
"""
