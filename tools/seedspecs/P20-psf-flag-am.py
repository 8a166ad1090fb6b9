property = 'P20'
needs = 'an adaptive moments PSF fit that fails while the object fit succeeds'
what_it_breaks = 'a failed PSF fit is not in the combined adaptive-moments flags'
edits = [('metadetect/fitting.py', '            res["am_flags"] = (res["am_psf_flags"] | res["am_obj_flags"])\n', '            res["am_flags"] = max(res["am_psf_flags"][0], res["am_obj_flags"][0])\n')]
demo = """
import numpy as np, obs as O
from metadetect import fitting
class R:
    def go(self, o):
        d = dict(flags=0, T_flags=0, s2n=1., e=np.zeros(2), e_cov=np.eye(2), T=1., T_err=1.)
        d['flags'] = 4 if o.image.shape == (5, 7) else 8
        return d
mb = O.build(dict(seed=3, dims=[12, 12], epochs=[1], mfrac=[0], noise=True, bmask=False, ormask=True, zeros=0))
mb[0][0].bmask = np.zeros((12, 12), 'i4')
r = fitting.fit_mbobs_admom(mbobs=mb, bmask_flags=0, rng=None, runner=R(), symmetrize=False)
assert r['am_flags'][0] == 12, r['am_flags']
"""
