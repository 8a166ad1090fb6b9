from .gexceptions import BootPSFFailure


def bootstrap(obs, runner, psf_runner=None, ignore_failed_psf=True):
    if psf_runner is not None:
        psf_runner.go(obs)
        n = g = 0
        for ol in obs:
            for o in ol:
                n += 1
                g += o.psf.meta['result']['flags'] == 0
        if n > 0 and g == 0:
            raise BootPSFFailure('no good psf fits')
    return runner.go(obs)
