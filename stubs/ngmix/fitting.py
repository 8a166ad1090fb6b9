import numpy as np
from ._momfit import weighted
from .gmix import GMixModel
from .observation import MultiBandObsList


class FitModel(dict):
    def get_gmix(self, band=None):
        return GMixModel([0, 0, 0, 0, self['T'], 1.0], 'gauss')


class Fitter(object):
    kind = 'gauss'

    def __init__(self, model, prior=None, fit_pars=None):
        self.model, self.prior, self.fit_pars = model, prior, fit_pars

    def go(self, obs, guess=None):
        if isinstance(obs, MultiBandObsList):
            rs = [weighted(ol[0], 2.0) for ol in obs]
            out = FitModel(rs[0])
            out['flags'] = int(np.bitwise_or.reduce([r['flags'] for r in rs]))
            out['g'] = np.mean([r['e'] for r in rs], axis=0)
            out['g_cov'] = np.mean([r['e_cov'] for r in rs], axis=0)
            out['T'] = np.mean([r['T'] for r in rs])
            out['T_err'] = np.mean([r['T_err'] for r in rs])
            out['s2n'] = np.mean([r['s2n'] for r in rs])
            fl = np.array([r['flux'] for r in rs])
            fe = np.array([r['flux_err'] for r in rs])
            out['flux'] = fl if len(rs) > 1 else fl[0]
            out['flux_err'] = fe if len(rs) > 1 else fe[0]
            return out
        r = FitModel(weighted(obs, 2.0))
        r['g'] = r['e']
        r['g_cov'] = r['e_cov']
        return r
