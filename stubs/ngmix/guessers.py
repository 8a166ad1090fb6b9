class _G(object):
    def __init__(self, *a, **k):
        self.a, self.k = a, k

    def __call__(self, obs=None):
        return None


class GMixPSFGuesser(_G):
    pass


class SimplePSFGuesser(_G):
    pass


class TPSFFluxGuesser(_G):
    pass


class TFluxGuesser(_G):
    pass
