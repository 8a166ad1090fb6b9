import numpy as np
from ._momfit import weighted
from .gmix import GMixModel


class AdmomFitter(object):
    kind = 'am'

    def __init__(self, maxiter=200, shiftmax=5.0, etol=1e-5, Ttol=1e-3, rng=None):
        self.rng = rng

    def go(self, obs, guess=None):
        res = weighted(obs, 2.0)
        T = res['sums'][4]/res['sums'][5] if res['sums'][5] > 0 else np.nan
        if res['flags'] == 0:
            res['g'] = res['e'].copy()
        return AdmomResult(obs, res)


class AdmomResult(dict):
    def __init__(self, obs, res):
        self.update(res)

    def get_gmix(self):
        return GMixModel([0, 0, self['e'][0], self['e'][1], self['T'], 1.0], 'gauss')
