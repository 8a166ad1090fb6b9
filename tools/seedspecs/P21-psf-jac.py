property = 'P21'
needs = 'bands whose PSF Jacobians differ while everything else agrees'
what_it_breaks = 'bands with different PSF Jacobians are coadded'
edits = [('metadetect/fitting.py', '            or (repr(fobs.psf.jacobian) != repr(obs.psf.jacobian))\n', '            or (fobs.psf.jacobian.scale != obs.psf.jacobian.scale)\n')]
demo = """
import numpy as np, obs as O, ngmix
from metadetect import fitting, procflags
mb = O.build(dict(seed=3, dims=[12, 12], epochs=[1, 1], mfrac=[0, 0], noise=True, bmask=True, ormask=True, zeros=0))
c, f = fitting.make_coadd_obs(mb)
assert f == 0
mb[1][0].psf = ngmix.Observation(mb[1][0].psf.image, jacobian=ngmix.DiagonalJacobian(row=1, col=3))
c, f = fitting.make_coadd_obs(mb)
assert c is None and f == procflags.INCONSISTENT_BANDS
"""
