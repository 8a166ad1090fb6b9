from ._momfit import MomFitter


class PrePSFMom(MomFitter):
    def __init__(self, fwhm, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        self.fwhm = fwhm
        self.fwhm_smooth = fwhm_smooth

    def go(self, obs, return_kernels=False, no_psf=False):
        if not no_psf and not obs.has_psf():
            raise RuntimeError('The PSF must be set to measure a pre-PSF moment!')
        return MomFitter.go(self, obs)


class KSigmaMom(PrePSFMom):
    kind = 'ksigma'


class PGaussMom(PrePSFMom):
    kind = 'pgauss'
