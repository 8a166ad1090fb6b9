import numpy as np
from .defaults import DEFAULT_STEP, METACAL_MINIMAL_TYPES


def get_all_metacal(obs, psf='gauss', step=DEFAULT_STEP, fixnoise=True, rng=None,
                    use_noise_image=False, types=None, **kw):
    """stand-in: per type a copy of the observations, image scaled by a known factor"""
    if types is None:
        types = METACAL_MINIMAL_TYPES
    out = {}
    for t in types:
        m = obs.copy()
        f = 1.0
        if t in ('1p', '2p'):
            f = 1.0 + step
        elif t in ('1m', '2m'):
            f = 1.0 - step
        for ol in m:
            for o in ol:
                o.set_image(np.asarray(o.image)*f)
                o.set_weight(np.asarray(o.weight)*0.5)
        out[t] = m
    return out


def _get_gauss_target_psf(psf, flux):
    import galsim
    return galsim.Gaussian(sigma=1.0, flux=flux)


def _get_ellip_dilation(e1, e2, T):
    return 1.0
