from .priors import _P


class PriorSimpleSep(_P):
    pass
