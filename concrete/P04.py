import numpy as np
from metadetect import masking as mk
from concrete.P03 import K
RULE = 'random shapes (tiny, non-square, smaller than the range) and scales against ' \
       'the product of four per-pixel tapers'


def cases(rng, deep):
    for d, h in (([10, 10], 1.0), ([1, 1], 0.5), ([3, 20], 1.0), ([20, 3], 1.0),
                 ([7, 5], 2.0), ([13, 13], 1.0), ([14, 9], 1.0), ([8, 8], 0.01),
                 ([8, 9], 0.083), ([8, 9], 0.084), ([25, 31], 0.75)):
        yield dict(d=d, h=h)
    while True:
        yield dict(d=[int(rng.randint(1, 30)), int(rng.randint(1, 30))],
                   h=float(np.round(rng.choice([0.05, 0.3, 1, 2])*rng.uniform(0.5, 1.5),
                                    3)))


def edge_want(d, h):
    ny, nx = d
    A = int(6*h + 0.5)
    m = np.ones((ny, nx))
    for y in range(ny):
        for x in range(nx):
            for t in (y, ny - 1 - y, x, nx - 1 - x):
                if t <= A:
                    m[y, x] *= K(t, A, h)
    return m


def check(c):
    base = 0.3 + (np.arange(c['d'][0]*c['d'][1]).reshape(c['d']) % 5)/10
    m = base.copy()
    mk._build_square_apodization_mask(c['h'], m)
    w = base*edge_want(c['d'], c['h'])
    e = ~(np.abs(m - w) < 1e-9)
    if e.any():
        p = tuple(np.argwhere(e)[0])
        return 'pixel %s is %r, expected %r' % (p, m[p], w[p])
    if m.min() < -1e-12 or np.any(m > base + 1e-12):
        return 'mask exceeds its input'
    if mk.get_ap_range(c['h']) != int(6*c['h'] + 0.5):
        return 'range'
