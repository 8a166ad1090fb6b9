import numpy as np
from . import moments


def weighted(obs, fwhm, no_psf=True):
    """Gaussian weighted moments, row by row, and their formal covariance"""
    T = moments.fwhm_to_T(fwhm)
    jac = obs.jacobian
    ny, nx = obs.image.shape
    r, c = np.mgrid[0:ny, 0:nx]
    v, u = jac.get_vu(r, c)
    r2 = u**2 + v**2
    w = np.exp(-0.5*r2/(T/2))*jac.scale**2
    wt = obs.weight
    use = wt > 0
    F = np.array([v, u, u**2 - v**2, 2*u*v, r2, np.ones_like(u)])
    f = (F*w*obs.image)[:, use].sum(axis=1)
    var = np.where(use, 1.0/np.where(use, wt, 1.0), 0.0)
    Fw = F*w
    cov = np.einsum('iyx,jyx->ij', Fw*var, Fw)
    res = moments.make_mom_result(f, cov, sums_norm=w[use].sum())
    return res


class MomFitter(object):
    kind = 'mom'

    def __init__(self, fwhm, **kw):
        self.fwhm = fwhm

    def go(self, obs, **kw):
        return weighted(obs, self.fwhm)
