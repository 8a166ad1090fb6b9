from ._momfit import MomFitter


class GaussMom(MomFitter):
    kind = 'wmom'

    def go(self, obs):
        return MomFitter.go(self, obs)
