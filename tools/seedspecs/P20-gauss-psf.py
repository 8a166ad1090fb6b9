property = 'P20'
needs = 'a gauss fit over several bands where one PSF fit fails without an exception'
what_it_breaks = 'the flags of all but the last PSF are lost'
edits = [('metadetect/fitting.py', '                    pflags |= obs.psf.meta["result"]["flags"]\n', '                    pflags = obs.psf.meta["result"]["flags"]\n')]
demo = """
import numpy as np, obs as O
from metadetect import fitting
class R:
    def __init__(s, psf): s.psf = psf; s.n = 0
    def go(self, obs):
        if self.psf:
            for ol in obs:
                for o in ol:
                    self.n += 1
                    o.psf.meta['result'] = dict(flags=4 if self.n == 1 else 0, T=1., g=np.zeros(2))
            return
        return dict(flags=0, s2n=1., g=np.zeros(2), g_cov=np.eye(2), T=1., T_err=1., flux=np.ones(2), flux_err=np.ones(2))
mb = O.build(dict(seed=3, dims=[12, 12], epochs=[1, 1], mfrac=[0, 0], noise=True, bmask=True, ormask=True, zeros=0))
old = fitting.bootstrap
def boot(mbobs, runner, psf_runner=None, **k):
    psf_runner.go(mbobs)
    return runner.go(mbobs)
fitting.bootstrap = boot
r = fitting.fit_mbobs_gauss(mbobs=mb, bmask_flags=0, rng=None, obj_runner=R(False), psf_runner=R(True))
assert r['gauss_flags'][0] & 4, r['gauss_flags']
"""
