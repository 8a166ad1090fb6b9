import numpy as np


def e1e2_to_g1g2(e1, e2):
    e = np.sqrt(e1*e1 + e2*e2)
    if e == 0:
        return 0.0, 0.0
    g = np.tanh(0.5*np.arctanh(e))
    return e1*g/e, e2*g/e


class Shape(object):
    def __init__(self, g1, g2):
        self.g1, self.g2 = g1, g2
