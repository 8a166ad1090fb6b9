class Runner(object):
    def __init__(self, fitter, guesser=None, ntry=1):
        self.fitter, self.guesser, self.ntry = fitter, guesser, ntry

    def go(self, obs):
        res = None
        for i in range(self.ntry):
            res = self.fitter.go(obs)
            if res['flags'] == 0:
                break
        return res


class PSFRunner(Runner):
    def go(self, obs, set_result=True):
        from .observation import ObsList, MultiBandObsList
        if isinstance(obs, MultiBandObsList):
            return [[self.go(o) for o in ol] for ol in obs]
        if isinstance(obs, ObsList):
            return [self.go(o) for o in obs]
        o = obs.psf if obs.has_psf() else obs
        res = Runner.go(self, o)
        o.meta['result'] = res
        if res['flags'] == 0:
            o.set_gmix(res.get_gmix())
        return res
