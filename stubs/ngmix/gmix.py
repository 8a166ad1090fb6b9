import numpy as np


class GMixModel(object):
    """single Gaussian of the model 'gauss' (parameters row, col, g1, g2, T, flux)"""
    def __init__(self, pars, model):
        self.pars = np.array(pars, dtype='f8')
        self.model = model

    def copy(self):
        return GMixModel(self.pars, self.model)

    def get_e1e2T(self):
        return self.pars[2], self.pars[3], self.pars[4]

    def get_g1g2T(self):
        return self.pars[2], self.pars[3], self.pars[4]

    def set_norms(self):
        pass

    def get_weighted_sums(self, obs, maxrad, res=None):
        """sums over pixels with weight > 0 within maxrad of the jacobian center"""
        from .gexceptions import GMixFatalError
        wt = obs.weight
        if not np.any(wt > 0):
            raise GMixFatalError('no weights > 0')
        jac = obs.jacobian
        ny, nx = obs.image.shape
        rows, cols = np.mgrid[0:ny, 0:nx]
        v, u = jac.get_vu(rows, cols)
        r2 = u**2 + v**2
        T = self.pars[4]
        w = np.exp(-0.5*r2/(T/2))
        use = (wt > 0) & (r2 < maxrad**2)
        sums = np.zeros(6)
        f = w*obs.image
        sums[0] = (f*v)[use].sum()
        sums[1] = (f*u)[use].sum()
        sums[2] = (f*(u**2 - v**2))[use].sum()
        sums[3] = (f*2*u*v)[use].sum()
        sums[4] = (f*r2)[use].sum()
        sums[5] = f[use].sum()
        return {'sums': sums, 'wsum': w[use].sum(), 'sums_cov': np.eye(6),
                'npix': int(use.sum()), 'flags': 0}
