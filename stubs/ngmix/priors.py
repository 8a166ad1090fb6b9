class _P(object):
    def __init__(self, *a, **k):
        self.a, self.k = a, k


class GPriorBA(_P):
    pass


class CenPrior(_P):
    pass


class TwoSidedErf(_P):
    pass
